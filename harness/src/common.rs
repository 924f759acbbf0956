//! Case generation and independent, naive reference versions of the geometry.
#![allow(dead_code)]
use ndarray::prelude::*;
use upppp_rust::datamanager::*;
use upppp_rust::grid::*;
#[allow(unused_imports)]
use upppp_rust::grid::Dim;
use upppp_rust::particleselector::*;

pub const PI: f64 = std::f64::consts::PI;
pub type R = Result<(), String>;

thread_local! { static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) }; }
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { LAST.with(|l| l.set(0.)); let mut r = Rng(seed ^ 0x9e3779b97f4a7c15); r.u(); r.u(); r }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize { (self.u() % n as u64) as usize }
    pub fn r(&mut self, a: usize, b: usize) -> usize { a + self.n(b - a + 1) }
    pub fn f(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn fr(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn p(&mut self, x: f64) -> bool { self.f() < x }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.n(v.len())].clone() }
    /// a small number with an exact short binary representation
    pub fn small(&mut self) -> f64 {
        if let Some(x) = self.lit(0.04) {
            // a number that small may be a tolerance: one that differs from the one before by less
            return if x != 0. && x.abs() < 0.2 && self.p(0.7) { LAST.with(|l| { l.set(l.get() + x.abs().log2().floor().exp2() / 2.); l.get() }) } else { x };
        }
        let x = (self.n(65) as f64 - 32.) / 4.;
        LAST.with(|l| l.set(x));
        x
    }
    /// a number that the source has and the reviewed tree had not
    pub fn lit(&mut self, p: f64) -> Option<f64> {
        let l = lits();
        if l.is_empty() || !self.p(p) { return None; }
        let x = self.pick(l);
        Some(match self.n(6) { 0 => -x, 1 => x + 1., 2 => x - 1., _ => x })
    }
    /// such a number as a size
    pub fn size(&mut self, p: f64, max: usize) -> Option<usize> { self.lit(p).filter(|x| *x >= 1. && *x <= max as f64).map(|x| x as usize) }
}

pub fn lits() -> &'static [f64] {
    static L: std::sync::OnceLock<Vec<f64>> = std::sync::OnceLock::new();
    L.get_or_init(|| std::env::var("UP4_LITS").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect())
}
pub fn same(a: f64, b: f64) -> bool { tol(a, b, 1e-9) }
pub fn tol(a: f64, b: f64, t: f64) -> bool {
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    if a == b { return true; }
    if a.is_infinite() || b.is_infinite() { return false; }
    (a - b).abs() <= t * (1.0 + a.abs().max(b.abs()))
}
pub fn eq3(what: &str, got: &Array3<f64>, want: &Array3<f64>) -> R {
    if got.shape() != want.shape() { return Err(format!("{what}: shape {:?}, expected {:?}", got.shape(), want.shape())); }
    for (k, w) in want.indexed_iter() { if !same(got[k], *w) { return Err(format!("{what}: cell {:?} holds {}, expected {}", k, got[k], w)); } }
    Ok(())
}
pub fn eq2(what: &str, got: &Array2<f64>, want: &Array2<f64>) -> R {
    if got.shape() != want.shape() { return Err(format!("{what}: shape {:?}, expected {:?}", got.shape(), want.shape())); }
    for (k, w) in want.indexed_iter() { if !same(got[k], *w) { return Err(format!("{what}: element {:?} is {}, expected {}", k, got[k], w)); } }
    Ok(())
}
pub fn eq1(what: &str, got: &Array1<f64>, want: &Array1<f64>) -> R {
    if got.len() != want.len() { return Err(format!("{what}: length {}, expected {}", got.len(), want.len())); }
    for k in 0..want.len() { if !same(got[k], want[k]) { return Err(format!("{what}: element {k} is {}, expected {}", got[k], want[k])); } }
    Ok(())
}
pub fn ensure(c: bool, msg: impl FnOnce() -> String) -> R { if c { Ok(()) } else { Err(msg()) } }
/// runs f; Err when it aborts
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("aborted: {m}")
    })
}
pub fn refuses<T>(what: &str, f: impl FnOnce() -> T) -> R { match guard(f) { Ok(_) => Err(format!("{what} was accepted")), Err(_) => Ok(()) } }

// ------------------------------------------------------------------ grids
#[derive(Clone, Debug)]
pub struct G { pub cyl: bool, pub cells: [usize; 3], pub lim: [[f64; 2]; 3], pub exact: bool }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Place { Out, In([usize; 3]), Amb }

impl G {
    pub fn any(r: &mut Rng, cyl: bool) -> G { G::sized(r, cyl, 5) }
    pub fn some(r: &mut Rng) -> G { let c = r.p(0.35); G::sized(r, c, 4) }
    pub fn sized(r: &mut Rng, cyl: bool, max: usize) -> G {
        let exact = r.p(0.6);
        let mut lim = [[0.; 2]; 3];
        let mut cells = [1; 3];
        for a in 0..3 {
            if exact {
                let size = r.pick(&[2., 4., 8., 8., 16.]);
                let lo = r.pick(&[0., 0., -4., -8., 2., 64., -1.]);
                lim[a] = [lo, lo + size];
                cells[a] = r.pick(&[1usize, 2, 2, 4, 4]).min(max);
                if cyl && a == 1 { cells[a] = r.r(1, max); }
            } else {
                let lo = r.fr(-10., 10.);
                lim[a] = [lo, lo + r.fr(0.1, 12.)];
                cells[a] = r.r(1, max);
            }
        }
        if r.p(0.01) { let a = r.n(3); let n = r.pick(&[8usize, 16, 16, 32, 64]); if !exact || !cyl { cells[a] = n.min(if max > 4 { 64 } else { 16 }); } }
        if let Some(n) = r.size(0.05, 300) { if !exact { cells[r.n(3)] = n; } }
        if cyl && r.p(0.5) { let h = (lim[0][1] - lim[0][0]) / 2.; lim[1] = [lim[1][0], lim[1][0] + 2. * h]; }
        G { cyl, cells, lim, exact }
    }
    pub fn center(&self) -> [f64; 3] { [(self.lim[0][0] + self.lim[0][1]) / 2., (self.lim[1][0] + self.lim[1][1]) / 2., (self.lim[2][0] + self.lim[2][1]) / 2.] }
    pub fn radius(&self) -> f64 { ((self.lim[0][1] - self.lim[0][0]) / 2.).max((self.lim[1][1] - self.lim[1][0]) / 2.) }
    pub fn build(&self) -> Box<dyn GridFunctions3D> {
        if self.cyl { Box::new(CylindricalGrid3D::new(self.cells, Dim::ThreeD(self.lim), "volume")) } else { Box::new(CartesianGrid3D::new(self.cells, Dim::ThreeD(self.lim))) }
    }
    /// a grid that already holds values
    pub fn dirty(&self, r: &mut Rng) -> Box<dyn GridFunctions3D> {
        let mut g = self.build();
        if r.p(0.7) { g.set_data(rand3(r, self.cells, 0.05)); g.set_weights(rand3(r, self.cells, 0.)); }
        g
    }
    pub fn place(&self, p: [f64; 3]) -> Place {
        if p.iter().any(|x| x.is_nan()) { return Place::Out; }
        let mut cell = [0; 3];
        if !self.cyl {
            for a in 0..3 { if p[a] < self.lim[a][0] || p[a] > self.lim[a][1] { return Place::Out; } }
            for a in 0..3 { match frac_cell((p[a] - self.lim[a][0]) / (self.lim[a][1] - self.lim[a][0]), self.cells[a], self.exact) { Some(k) => cell[a] = k, None => return Place::Amb } }
            return Place::In(cell);
        }
        let c = self.center();
        let (dx, dy) = (p[0] - c[0], p[1] - c[1]);
        let rr = (dx * dx + dy * dy).sqrt();
        let rad = self.radius();
        if p[2] < self.lim[2][0] || p[2] > self.lim[2][1] { return Place::Out; }
        let axial = self.exact && (dx == 0. || dy == 0.);
        if !axial && (rr - rad).abs() < 1e-9 * rad { return Place::Amb; }
        if rr > rad { return Place::Out; }
        match self.shell(rr, axial) { Some(k) => cell[0] = k, None => return Place::Amb }
        match frac_cell((dy.atan2(dx) + PI) / (2. * PI), self.cells[1], false) { Some(k) => cell[1] = k, None => return Place::Amb }
        match frac_cell((p[2] - self.lim[2][0]) / (self.lim[2][1] - self.lim[2][0]), self.cells[2], false) { Some(k) => cell[2] = k, None => return Place::Amb }
        Place::In(cell)
    }
    /// shells of equal volume: shell k reaches from R sqrt(k/n) to R sqrt((k+1)/n)
    pub fn shell(&self, rr: f64, exact: bool) -> Option<usize> {
        let (rad, n) = (self.radius(), self.cells[0]);
        let f = rr * rr / (rad * rad) * n as f64;
        let near = f.round();
        if (f - near).abs() < 1e-9 {
            if near >= n as f64 { return Some(n - 1); }
            if near < 1. { return Some(0); }
            if near == 1. && exact && n == 4 && rr == rad / 2. { return Some(1); }
            return None;
        }
        Some((f.floor() as usize).min(n - 1))
    }
    /// a position; most of them inside
    pub fn pos(&self, r: &mut Rng) -> [f64; 3] {
        let mut p = [0.; 3];
        for a in 0..3 {
            let [lo, hi] = self.lim[a];
            let w = hi - lo;
            p[a] = match r.n(14) {
                0 => lo,
                1 => hi,
                2 => if self.exact { lo + w * r.n(self.cells[a] + 1) as f64 / self.cells[a] as f64 } else { r.fr(lo, hi) },
                3 => (lo + hi) / 2.,
                4 => if r.p(0.3) { lo - r.fr(0., w) } else { r.fr(lo, hi) },
                5 => if r.p(0.3) { hi + r.fr(0., w) } else { r.fr(lo, hi) },
                6 => if r.p(0.25) { f64::NAN } else { r.fr(lo, hi) },
                7 => if r.p(0.15) { r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300]) } else { r.fr(lo, hi) },
                8 => if r.p(0.3) { hi + hi.abs().max(1.) * 1e-12 } else { r.fr(lo, hi) },
                _ => r.fr(lo, hi),
            };
            if self.exact && r.p(0.3) && p[a].is_finite() && p[a].abs() < 1e6 { p[a] = (p[a] * 4.).round() / 4.; }
        }
        if self.cyl && r.p(0.4) {
            // on a ray through the centre
            let c = self.center();
            let rad = self.radius();
            let any = rad * r.f();
            let d = r.pick(&[0., rad, rad / 2., rad * 0.75, rad * 1.25, any]) * r.pick(&[1., -1.]);
            let a = r.n(2);
            p[a] = c[a] + d;
            p[1 - a] = c[1 - a];
        }
        p
    }
    /// a position whose cell is beyond doubt
    pub fn sure(&self, r: &mut Rng) -> [f64; 3] { for _ in 0..200 { let p = self.pos(r); if self.place(p) != Place::Amb { return p; } } let c = self.center(); [c[0] + 0.0517 * self.radius(), c[1] + 0.0313 * self.radius(), c[2] + 0.00123 * (self.lim[2][1] - self.lim[2][0])] }
    /// ... and that is inside
    pub fn inner(&self, r: &mut Rng) -> [f64; 3] { for _ in 0..300 { let p = self.sure(r); if let Place::In(_) = self.place(p) { return p; } } self.sure(r) }
    /// somewhere in the bulk of the grid
    pub fn calm(&self, r: &mut Rng) -> [f64; 3] { for _ in 0..300 { let mut p = [0.; 3]; for a in 0..3 { p[a] = r.fr(self.lim[a][0], self.lim[a][1]); } if let Place::In(_) = self.place(p) { return p; } } self.inner(r) }
    pub fn cell(&self, p: [f64; 3]) -> Option<[usize; 3]> { match self.place(p) { Place::In(c) => Some(c), Place::Out => None, Place::Amb => panic!("harness: ambiguous position") } }
    pub fn zeros(&self) -> Array3<f64> { Array3::zeros(self.cells) }
    pub fn same_geometry(&self, what: &str, g: &dyn GridFunctions3D) -> R {
        ensure(g.is_cylindrical() == self.cyl, || format!("{what}: kind of geometry changed"))?;
        ensure(g.get_cells() == &self.cells, || format!("{what}: cells {:?}, expected {:?}", g.get_cells(), self.cells))?;
        let f = self.build();
        ensure(g.get_limits() == f.get_limits(), || format!("{what}: limits changed"))?;
        ensure(g.get_xpositions() == f.get_xpositions() && g.get_ypositions() == f.get_ypositions() && g.get_zpositions() == f.get_zpositions(), || format!("{what}: cell centres changed"))
    }
}
/// index of the cell at the fraction x of an axis with n cells; None when rounding could decide
pub fn frac_cell(x: f64, n: usize, exact: bool) -> Option<usize> {
    let f = x * n as f64;
    let near = f.round();
    if !exact && (f - near).abs() < 1e-9 {
        if near < 1. { return Some(0); }
        if near >= n as f64 { return Some(n - 1); }
        return None;
    }
    Some((f.floor().max(0.) as usize).min(n - 1))
}
pub fn rand3(r: &mut Rng, c: [usize; 3], nan: f64) -> Array3<f64> {
    let mut a = Array3::zeros(c);
    for x in a.iter_mut() { *x = if r.p(nan) { f64::NAN } else { r.small() }; }
    a
}
pub fn rand3_pos(r: &mut Rng, c: [usize; 3], nan: f64) -> Array3<f64> {
    let mut a = Array3::zeros(c);
    for x in a.iter_mut() { *x = if r.p(nan) { f64::NAN } else { r.n(9) as f64 / 2. }; }
    a
}

// ------------------------------------------------------------------ selection
#[derive(Clone, Debug)]
pub struct Sel { pub time: (f64, f64), pub radius: Vec<f64>, pub clouds: Vec<f64>, pub density: Vec<f64>, pub id: Vec<usize> }
pub const RADII: [f64; 5] = [0.5, 1., 1.5, 2., 3.];
impl Sel {
    pub fn all() -> Sel { Sel { time: (f64::MIN, f64::MAX), radius: vec![-1.], clouds: vec![-1.], density: vec![-1.], id: vec![0] } }
    fn list(r: &mut Rng) -> Vec<f64> {
        match r.n(6) {
            0 => vec![r.pick(&RADII)],
            1 | 2 => { let mut a = [r.pick(&RADII), r.pick(&RADII)]; if r.p(0.9) { a.sort_by(|x, y| x.partial_cmp(y).unwrap()); } a.to_vec() }
            3 => { let n = if r.p(0.1) { r.r(5, 40) } else { r.r(3, 4) }; let mut v: Vec<f64> = (0..n).map(|_| r.pick(&RADII)).collect(); if r.p(0.3) { let k = r.r(1, n - 1); v[k] = r.pick(&[-1., 0., f64::NAN, 7.]); } v }
            4 => { let mut v = vec![-1.]; for _ in 0..r.n(4) { v.push(r.pick(&RADII)); } v }
            _ => vec![-1.],
        }
    }
    fn ids(r: &mut Rng) -> Vec<usize> {
        match r.n(6) {
            0 => vec![r.r(1, 6)],
            1 | 2 => { let mut a = [r.r(1, 7), r.r(1, 7)]; a.sort(); a.to_vec() }
            3 => { let n = if r.p(0.1) { r.r(6, 40) } else { r.r(3, 5) }; let mut v: Vec<usize> = (0..n).map(|_| r.r(1, 7)).collect(); if r.p(0.3) { let k = r.r(1, n - 1); v[k] = r.pick(&[0, 0, 1000, usize::MAX]); } v }
            4 => { let mut v = vec![0]; for _ in 0..r.n(4) { v.push(r.r(1, 7)); } v }
            _ => vec![0],
        }
    }
    /// mostly selections that leave something
    pub fn some(r: &mut Rng, times: &[f64]) -> Sel {
        let mut s = Sel::all();
        if r.p(0.35) { let k = r.n(4); if k == 0 { s.radius = Sel::list(r); } else if k == 1 { s.clouds = Sel::list(r); } else if k == 2 { s.density = Sel::list(r); } else { s.id = Sel::ids(r); } }
        if r.p(0.1) { s.radius = Sel::list(r); s.clouds = Sel::list(r); s.density = Sel::list(r); s.id = Sel::ids(r); }
        if !times.is_empty() && r.p(0.4) {
            let mut a = r.pick(times);
            let mut b = r.pick(times);
            if a > b { std::mem::swap(&mut a, &mut b); }
            if r.p(0.3) { a -= 0.001; }
            if r.p(0.3) { b += 0.001; }
            s.time = (a, b);
        }
        s
    }
    pub fn wild(r: &mut Rng) -> Sel { Sel { time: (r.small(), r.small()), radius: Sel::list(r), clouds: Sel::list(r), density: Sel::list(r), id: Sel::ids(r) } }
    pub fn build(&self) -> ParticleSelector {
        let mut s = ParticleSelector::new(self.time, self.radius.clone(), self.clouds.clone(), self.density.clone(), self.id.clone());
        s.time = self.time;
        s
    }
    pub fn f(l: &[f64], x: f64) -> bool { if l[0] == -1. { true } else if l.len() == 1 { x == l[0] } else if l.len() == 2 { l[0] <= x && x <= l[1] } else { l.iter().any(|y| *y == x) } }
    pub fn u(l: &[usize], x: usize) -> bool { if l[0] == 0 { true } else if l.len() == 1 { x == l[0] } else if l.len() == 2 { l[0] <= x && x <= l[1] } else { l.iter().any(|y| *y == x) } }
    pub fn takes(&self, radius: f64, clouds: f64, density: f64, id: usize) -> bool { Sel::f(&self.radius, radius) && Sel::f(&self.clouds, clouds) && Sel::f(&self.density, density) && Sel::u(&self.id, id) }
    pub fn at(&self, t: f64) -> bool { self.time.0 <= t && t <= self.time.1 }
    pub fn p(&self, s: &Step, p: usize) -> bool { self.takes(s.radius[p], s.clouds[p], s.density[p], s.id[p] as usize) }
}

// ------------------------------------------------------------------ datasets
#[derive(Clone, Debug, Default)]
pub struct Step { pub time: f64, pub pos: Vec<[f64; 3]>, pub vel: Vec<[f64; 3]>, pub radius: Vec<f64>, pub id: Vec<f64>, pub clouds: Vec<f64>, pub density: Vec<f64>, pub ptype: Vec<f64> }
#[derive(Clone, Debug)]
pub struct Ds { pub steps: Vec<Step>, pub vmag: [f64; 3], pub dim: [[f64; 3]; 2] }
pub struct Want { pub min_steps: usize, pub max_steps: usize, pub vary: bool, pub nan_vel: f64, pub calm: bool, pub dyadic: bool }
impl Ds {
    pub fn some(r: &mut Rng, g: &G, w: Want) -> Ds {
        let mut nt = r.r(w.min_steps, w.max_steps);
        let least = if r.p(0.1) { 0 } else { 1 };
        let mut np = r.r(least, 7);
        match r.n(100) { 0 => nt = r.r(w.min_steps.max(10), 150), 1 => np = r.r(8, 70), _ => {} }
        if let Some(n) = r.size(0.04, 1100) { nt = n.max(w.min_steps); np = np.min(3); } else if let Some(n) = r.size(0.04, 1100) { np = n; nt = nt.min(w.min_steps + 1); }
        let mut t = if let Some(x) = r.lit(0.1) { x } else { r.pick(&[0., 0., 1.5, -2.]) };
        let even = r.p(0.5);
        let mut steps = vec![];
        for _ in 0..nt {
            let n = if w.vary && r.p(0.4) { r.r(0, 7) } else { np };
            let mut s = Step { time: t, ..Default::default() };
            for p in 0..n {
                s.pos.push(if w.calm { g.calm(r) } else { g.sure(r) });
                let mut v = if w.dyadic { [r.small(), r.small(), r.small()] } else { [r.fr(-4., 4.), r.fr(-4., 4.), r.fr(-4., 4.)] };
                if r.p(0.15) { v = [0.; 3]; v[r.n(3)] = r.n(5) as f64; }
                if r.p(w.nan_vel) { v[r.n(3)] = f64::NAN; if r.p(0.5) { v = [f64::NAN; 3]; } }
                s.vel.push(v);
                s.radius.push(if r.p(0.03) { f64::NAN } else if let Some(x) = r.lit(0.03) { x } else { r.pick(&RADII) });
                s.clouds.push(r.pick(&RADII));
                s.density.push(r.pick(&RADII));
                s.id.push(if r.p(0.05) { r.n(9) as f64 } else { (p + 1) as f64 });
                s.ptype.push(r.pick(&[0., 1., 1., 1., 2., 2., 2., 3.]));
            }
            steps.push(s);
            t += if even { 0.5 } else { r.pick(&[0.25, 0.5, 1., 1.5, 0.125, 3.]) };
        }
        let mut mags: Vec<f64> = steps.iter().flat_map(|s| s.vel.iter().map(|v| norm(*v))).filter(|x| !x.is_nan()).collect();
        mags.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let vmag = if mags.is_empty() { [0., 0.5, 1.] } else { [mags[0], r.fr(0., 5.), mags[mags.len() - 1]] };
        Ds { steps, vmag, dim: [[g.lim[0][0], g.lim[1][0], g.lim[2][0]], [g.lim[0][1], g.lim[1][1], g.lim[2][1]]] }
    }
    pub fn times(&self) -> Vec<f64> { self.steps.iter().map(|s| s.time).collect() }
    pub fn max_n(&self) -> usize { self.steps.iter().map(|s| s.pos.len()).max().unwrap_or(0) }
    pub fn build(&self) -> Mem {
        let steps: Vec<Timestep> = self.steps.iter().map(|s| {
            let n = s.pos.len();
            let mut v = Array2::zeros((n, 3));
            for p in 0..n { for a in 0..3 { v[[p, a]] = s.vel[p][a]; } }
            Timestep::verif_new(s.time, Array1::from(s.pos.clone()), v, Array1::from(s.radius.clone()), Array1::from(s.id.clone()), Array1::from(s.clouds.clone()), Array1::from(s.density.clone()), Array1::from(s.ptype.clone()))
        }).collect();
        Mem { ds: self.clone(), steps, extra: false, reads: 0 }
    }
    pub fn nearest(&self, t: f64) -> Option<usize> { nearest(&self.times(), t) }
}
/// index of the time nearest to t, the earlier one on a tie; None outside
pub fn nearest(times: &[f64], t: f64) -> Option<usize> {
    if times.is_empty() || t.is_nan() || t < times[0] || t > times[times.len() - 1] { return None; }
    let mut best = 0;
    for k in 1..times.len() { if (times[k] - t).abs() < (times[best] - t).abs() { best = k; } }
    Some(best)
}
pub fn norm(v: [f64; 3]) -> f64 { (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt() }
/// a dataset in memory; an extra buffer must be set up before it is read
pub struct Mem { ds: Ds, steps: Vec<Timestep>, extra: bool, pub reads: usize }
impl DataManager for Mem {
    fn get_timestep(&mut self, timestep: usize) -> &Timestep { self.reads += 1; &self.steps[timestep] }
    fn global_stats(&self) -> GlobalStats {
        let d = &self.ds;
        let mut dim = Array2::zeros((2, 3));
        for a in 0..3 { dim[[0, a]] = d.dim[0][a]; dim[[1, a]] = d.dim[1][a]; }
        let t = d.times();
        GlobalStats::verif_new(dim, d.max_n(), t.len(), t[0], t[t.len() - 1], 1., Array2::zeros((2, 3)), array![d.vmag[0], d.vmag[1], d.vmag[2]], Array1::from(t))
    }
    fn stats(&self) {}
    fn get_timestep_unbuffered(&self, timestep: usize) -> Timestep { self.steps[timestep].clone() }
    fn setup_buffer(&mut self, _id: usize) { self.extra = true; }
    fn get_timestep_buffer(&mut self, timestep: usize, _buffer: usize) -> &Timestep { if !self.extra { panic!("extra buffer was not set up"); } &self.steps[timestep] }
    fn info(&self) -> Result<String, &'static str> { Ok(String::new()) }
    fn set_rotation_angle(&mut self, _angle: f64, _axis: f64) {}
    fn set_rotation_anker(&mut self, _point: [f64; 3]) {}
}
impl Manager for Mem {}
