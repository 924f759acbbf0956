//! C01-C10: grids, against a plain model of data and weights.
use crate::common::*;
use ndarray::prelude::*;
use upppp_rust::grid::*;
#[allow(unused_imports)]
use upppp_rust::grid::Dim;

#[derive(Clone)]
pub struct Model { pub g: G, pub data: Array3<f64>, pub weight: Array3<f64> }
impl Model {
    pub fn new(g: &G) -> Model { Model { g: g.clone(), data: g.zeros(), weight: g.zeros() } }
    pub fn of(g: &G, b: &dyn GridFunctions3D) -> Model { Model { g: g.clone(), data: b.get_data().clone(), weight: b.get_weights().clone() } }
    pub fn add_at(&mut self, c: [usize; 3], x: f64, w: f64) { self.data[c] += x; self.weight[c] += w; }
    pub fn add(&mut self, p: [f64; 3], x: f64) { if let Some(c) = self.g.cell(p) { self.add_at(c, x, 1.); } }
    pub fn insert(&mut self, p: [f64; 3], x: f64) { if let Some(c) = self.g.cell(p) { self.data[c] = x; } }
    pub fn traj(&mut self, a: [f64; 3], b: [f64; 3], x: f64) {
        if self.g.cyl { return self.add(a, x); }
        if let (Some(c), Some(d)) = (self.g.cell(a), self.g.cell(b)) { self.add_at(c, x * 0.5, 0.5); self.add_at(d, x * 0.5, 0.5); }
    }
    pub fn check(&self, what: &str, b: &dyn GridFunctions3D) -> R {
        eq3(&format!("{what}: data"), b.get_data(), &self.data)?;
        eq3(&format!("{what}: weights"), b.get_weights(), &self.weight)
    }
    pub fn check_all(&self, what: &str, b: &dyn GridFunctions3D) -> R { self.check(what, b)?; self.g.same_geometry(what, b) }
    pub fn cw(&self, k: [usize; 3]) -> f64 { if self.g.cyl && self.weight[k].is_nan() { 0. } else { self.weight[k] } }
}

fn cell_case(r: &mut Rng, cyl: bool) -> R {
    let g = G::any(r, cyl);
    let b = g.build();
    for _ in 0..12 {
        let p = g.pos(r);
        let what = format!("{g:?} position {p:?}");
        let inside = guard(|| b.is_inside(p)).map_err(|e| format!("{what}: is_inside {e}"))?;
        let id = guard(|| b.cell_id(p)).map_err(|e| format!("{what}: cell_id {e}"))?;
        match g.place(p) {
            Place::Amb => if let Ok(c) = id { for a in 0..3 { ensure(c[a] < g.cells[a], || format!("{what}: cell {c:?} is not in the grid"))?; } },
            Place::Out => { ensure(!inside, || format!("{what}: is outside, reported inside"))?; ensure(id.is_err(), || format!("{what}: is outside, reported in cell {:?}", id.unwrap()))?; }
            Place::In(c) => {
                ensure(inside, || format!("{what}: is inside, reported outside"))?;
                match id { Ok(x) => ensure(x == c, || format!("{what}: cell {x:?}, expected {c:?}"))?, Err(e) => return Err(format!("{what}: expected cell {c:?}, got an error: {e}")) }
            }
        }
    }
    if cyl && g.exact {
        // on the border of two shells the outer one
        let gr = CylindricalGrid3D::new(g.cells, Dim::ThreeD(g.lim), "volume");
        let c = g.center();
        for k in 1..g.cells[0] {
            let x = gr.rpositions()[k][0];
            let p = [c[0] + x, c[1] + 0., c[2] + 0.];
            if p[0] - c[0] != x || gr.rpositions()[k - 1][1] != x { continue; }
            if let Ok(id) = gr.cell_id(p) { ensure(id[0] == k, || format!("{g:?}: distance {x} is on the border of shells {} and {k}, reported shell {}", k - 1, id[0]))?; }
        }
    }
    Ok(())
}
pub fn c01(r: &mut Rng) -> R { cell_case(r, false) }
pub fn c02(r: &mut Rng) -> R {
    cell_case(r, true)?;
    let g = G::any(r, true);
    let gr = CylindricalGrid3D::new(g.cells, Dim::ThreeD(g.lim), "volume");
    let p = g.calm(r);
    let c = g.center();
    let q = gr.to_cylindrical(p);
    let (dx, dy) = (p[0] - c[0], p[1] - c[1]);
    ensure(same(q[0], (dx * dx + dy * dy).sqrt()) && same(q[1], dy.atan2(dx)) && same(q[2], p[2]), || format!("{g:?}: {p:?} in cylindrical coordinates is {q:?}"))
}
pub fn c03(r: &mut Rng) -> R {
    let cyl = r.p(0.5);
    let g = G::sized(r, cyl, 7);
    let what = format!("{g:?}");
    let b = guard(|| g.build()).map_err(|e| format!("{what}: {e}"))?;
    let n = g.cells;
    let ctr = |lo: f64, hi: f64, n: usize| -> Array1<f64> { (0..n).map(|i| lo + (i as f64 + 0.5) * (hi - lo) / n as f64).collect() };
    ensure(b.get_cells() == &n && b.is_cylindrical() == cyl, || format!("{what}: cells {:?} cylindrical {}", b.get_cells(), b.is_cylindrical()))?;
    eq1(&format!("{what}: z centres"), b.get_zpositions(), &ctr(g.lim[2][0], g.lim[2][1], n[2]))?;
    if cyl {
        eq1(&format!("{what}: angle centres"), b.get_ypositions(), &ctr(-PI, PI, n[1]))?;
        let gr = b.as_any().downcast_ref::<CylindricalGrid3D>().unwrap();
        let rad = g.radius();
        for i in 0..3 { ensure(same(gr.center()[i], g.center()[i]), || format!("{what}: centre {:?}", gr.center()))?; }
        ensure(same(*gr.radius(), rad), || format!("{what}: radius {}, expected {rad}", gr.radius()))?;
        ensure(gr.rpositions().len() == n[0], || format!("{what}: {} shells", gr.rpositions().len()))?;
        for i in 0..n[0] {
            let s = gr.rpositions()[i];
            let (lo, hi) = (rad * (i as f64 / n[0] as f64).sqrt(), rad * ((i + 1) as f64 / n[0] as f64).sqrt());
            ensure(same(s[0], lo) && same(s[1], hi), || format!("{what}: shell {i} is {s:?}, expected [{lo}, {hi}]"))?;
            if i > 0 { ensure(s[0] == gr.rpositions()[i - 1][1], || format!("{what}: shell {i} does not adjoin the one before"))?; }
            ensure(same(b.get_xpositions()[i], (lo + hi) / 2.), || format!("{what}: middle radius {i} is {}", b.get_xpositions()[i]))?;
        }
        ensure(gr.rpositions()[0][0] == 0., || format!("{what}: first shell does not start at the axis"))?;
        let l = b.get_limits();
        ensure(l[0][0] == 0. && same(l[0][1], rad) && same(l[1][0], -PI) && same(l[1][1], PI) && l[2] == g.lim[2], || format!("{what}: limits {l:?}"))?;
    } else {
        ensure(b.get_limits() == &g.lim, || format!("{what}: limits {:?}", b.get_limits()))?;
        eq1(&format!("{what}: x centres"), b.get_xpositions(), &ctr(g.lim[0][0], g.lim[0][1], n[0]))?;
        eq1(&format!("{what}: y centres"), b.get_ypositions(), &ctr(g.lim[1][0], g.lim[1][1], n[1]))?;
    }
    eq3(&format!("{what}: data"), b.get_data(), &g.zeros())?;
    eq3(&format!("{what}: weights"), b.get_weights(), &g.zeros())?;
    let one = || Dim::OneD([g.lim[0]]);
    let two = || Dim::TwoD([g.lim[0], g.lim[1]]);
    refuses("a Cartesian grid with one limit", || CartesianGrid3D::new(n, one()))?;
    refuses("a Cartesian grid with two limits", || CartesianGrid3D::new(n, two()))?;
    refuses("a cylindrical grid with one limit", || CylindricalGrid3D::new(n, one(), "volume"))?;
    refuses("a cylindrical grid with two limits", || CylindricalGrid3D::new(n, two(), "volume"))?;
    let m = r.pick(&["", "radius", "Volume", "equal", "volum", "volume "]);
    refuses(&format!("cylindrical mode {m:?}"), || CylindricalGrid3D::new(n, Dim::ThreeD(g.lim), m))
}
pub fn c04(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.dirty(r);
    let mut m = Model::of(&g, &*b);
    for step in 0..8 {
        let p = g.sure(r);
        let x = if r.p(0.06) { f64::NAN } else { r.small() };
        let what = format!("{g:?} step {step} at {p:?} value {x}");
        match r.n(5) {
            0 | 1 => { guard(|| b.add_value(p, x)).map_err(|e| format!("{what}: add_value {e}"))?; m.add(p, x); m.check_all(&format!("{what}: add_value"), &*b)?; }
            2 => { guard(|| b.insert(p, x)).map_err(|e| format!("{what}: insert {e}"))?; m.insert(p, x); m.check_all(&format!("{what}: insert"), &*b)?; }
            3 => { let c = [r.n(g.cells[0]), r.n(g.cells[1]), r.n(g.cells[2])]; guard(|| b.add_to_cell(c, x)).map_err(|e| format!("{what}: add_to_cell {c:?} {e}"))?; m.add_at(c, x, 1.); m.check_all(&format!("{what}: add_to_cell {c:?}"), &*b)?; }
            _ => {}
        }
        let got = guard(|| b.get_value(p)).map_err(|e| format!("{what}: get_value {e}"))?;
        let want = match g.cell(p) { Some(c) => m.data[c], None => f64::NAN };
        ensure(same(got, want), || format!("{what}: get_value {got}, expected {want}"))?;
    }
    m.check_all(&format!("{g:?}: end"), &*b)
}
pub fn c05(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.dirty(r);
    let mut m = Model::of(&g, &*b);
    for _ in 0..6 {
        let p = if r.p(0.8) { g.inner(r) } else { g.sure(r) };
        let q = match r.n(4) { 0 => p, 1 => g.sure(r), _ => g.inner(r) };
        let x = r.small();
        let what = format!("{g:?} from {p:?} to {q:?} value {x}");
        guard(|| b.add_trajectory_value(p, q, x)).map_err(|e| format!("{what}: {e}"))?;
        m.traj(p, q, x);
        m.check_all(&what, &*b)?;
    }
    Ok(())
}
pub fn c06(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.dirty(r);
    for _ in 0..5 {
        let m0 = Model::of(&g, &*b);
        let mut m = m0.clone();
        let what = format!("{g:?}");
        match r.n(6) {
            0 => { let o = rand3(r, g.cells, 0.05); b.divide_by_array(&o); for (k, x) in m0.data.indexed_iter() { m.data[k] = x / o[k]; } m.check_all(&format!("{what}: divide_by_array"), &*b)?; }
            1 => { let x = r.pick(&[2., 0.5, -3., 0., f64::NAN]); b.divide_by_scalar(x); for (k, y) in m0.data.indexed_iter() { m.data[k] = y / x; } m.check_all(&format!("{what}: divide_by_scalar {x}"), &*b)?; }
            2 => { b.divide_by_weight(); for (k, y) in m0.data.indexed_iter() { m.data[k] = y / m0.weight[k]; } m.check_all(&format!("{what}: divide_by_weight"), &*b)?; }
            3 => { m.data = rand3(r, g.cells, 0.05); b.set_data(m.data.clone()); m.check_all(&format!("{what}: set_data"), &*b)?; }
            4 => { m.weight = rand3(r, g.cells, 0.05); b.set_weights(m.weight.clone()); m.check_all(&format!("{what}: set_weights"), &*b)?; }
            _ => {
                let z = b.new_zeros();
                Model::new(&g).check_all(&format!("{what}: new_zeros"), &*z)?;
                m.check_all(&format!("{what}: after new_zeros"), &*b)?;
                let p = g.inner(r);
                ensure(z.is_inside(p) == b.is_inside(p) && z.cell_id(p).ok() == b.cell_id(p).ok(), || format!("{what}: the emptied copy places {p:?} elsewhere"))?;
            }
        }
    }
    let mut bad = g.cells;
    let a = r.n(3);
    if r.p(0.5) { bad.swap(a, (a + 1) % 3); } else { bad[a] += 1; }
    if bad == g.cells { bad[a] += 1; }
    let wrong = Array3::<f64>::zeros(bad);
    let m = Model::of(&g, &*b);
    refuses(&format!("{g:?}: data of shape {bad:?}"), || b.set_data(wrong.clone()))?;
    m.check_all(&format!("{g:?}: after refused data"), &*b)?;
    refuses(&format!("{g:?}: weights of shape {bad:?}"), || b.set_weights(wrong.clone()))?;
    m.check_all(&format!("{g:?}: after refused weights"), &*b)
}
pub fn ix3(ax: usize, i: usize, k: [usize; 2]) -> [usize; 3] { if ax == 0 { [i, k[0], k[1]] } else if ax == 1 { [k[0], i, k[1]] } else { [k[0], k[1], i] } }
pub fn rest(c: [usize; 3], ax: usize) -> [usize; 2] { if ax == 0 { [c[1], c[2]] } else if ax == 1 { [c[0], c[2]] } else { [c[0], c[1]] } }
pub fn nan0(x: f64) -> f64 { if x.is_nan() { 0. } else { x } }
pub fn collapse(m: &Model, ax: usize) -> (Array2<f64>, Array2<f64>) {
    let d = rest(m.g.cells, ax);
    let (mut v, mut w) = (Array2::zeros(d), Array2::zeros(d));
    for a in 0..d[0] { for b in 0..d[1] {
        let (mut s, mut ws, mut wr) = (0., 0., 0.);
        for i in 0..m.g.cells[ax] { let k = ix3(ax, i, [a, b]); s += nan0(m.data[k]) * m.cw(k); ws += m.cw(k); wr += m.weight[k]; }
        v[[a, b]] = s / ws;
        w[[a, b]] = wr;
    } }
    (v, w)
}
pub fn collapse_two(m: &Model, a: usize, b: usize) -> (Array1<f64>, Array1<f64>) {
    let (lo, hi) = (a.min(b), a.max(b));
    let (v, w) = collapse(m, lo);
    let keep = 3 - a - b;
    let n = m.g.cells[keep];
    let (mut x, mut y) = (Array1::zeros(n), Array1::zeros(n));
    for j in 0..n {
        let (mut s, mut ws) = (0., 0.);
        for i in 0..m.g.cells[hi] { let k = if keep < hi { [j, i] } else { [i, j] }; s += nan0(v[k]) * w[k]; ws += w[k]; }
        x[j] = s / ws;
        y[j] = ws;
    }
    (x, y)
}
pub fn c07(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.build();
    let nan = r.pick(&[0., 0.1, 0.3]);
    b.set_data(rand3(r, g.cells, nan));
    let wn = if r.p(0.2) { 0.15 } else { 0. };
    b.set_weights(rand3_pos(r, g.cells, wn));
    let m = Model::of(&g, &*b);
    let what = format!("{g:?} data {:?} weights {:?}", m.data, m.weight);
    for ax in 0..3 {
        let (v, w) = collapse(&m, ax);
        eq2(&format!("{what}: collapse({ax})"), &guard(|| b.collapse(ax))?, &v)?;
        eq2(&format!("{what}: collapse_weight({ax})"), &guard(|| b.collapse_weight(ax))?, &w)?;
        for a2 in 0..3 {
            if a2 == ax { refuses(&format!("{what}: collapse_two({ax}, {ax})"), || b.collapse_two(ax, ax))?; refuses(&format!("{what}: collapse_two_weight({ax}, {ax})"), || b.collapse_two_weight(ax, ax))?; continue; }
            let (x, y) = collapse_two(&m, ax, a2);
            eq1(&format!("{what}: collapse_two({ax}, {a2})"), &guard(|| b.collapse_two(ax, a2))?, &x)?;
            eq1(&format!("{what}: collapse_two_weight({ax}, {a2})"), &guard(|| b.collapse_two_weight(ax, a2))?, &y)?;
        }
    }
    m.check_all(&what, &*b)
}
fn layer(m: &Model, ax: usize, i: usize) -> Array2<f64> { let d = rest(m.g.cells, ax); Array2::from_shape_fn((d[0], d[1]), |(a, b)| m.data[ix3(ax, i, [a, b])]) }
pub fn c08(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.build();
    b.set_data(rand3(r, g.cells, 0.05));
    b.set_weights(rand3(r, g.cells, 0.));
    let m = Model::of(&g, &*b);
    for ax in 0..3 {
        for i in 0..g.cells[ax] { eq2(&format!("{g:?}: slice_idx({ax}, {i})"), &guard(|| b.slice_idx(ax, i)).map_err(|e| format!("{g:?}: slice_idx({ax}, {i}) {e}"))?, &layer(&m, ax, i))?; }
        let lim = if !g.cyl { g.lim[ax] } else { [[0., g.radius()], [-PI, PI], g.lim[2]][ax] };
        for _ in 0..6 {
            let x = match r.n(6) { 0 => lim[0], 1 => lim[1], 2 => (lim[0] + lim[1]) / 2., 3 if g.exact => lim[0] + (lim[1] - lim[0]) * r.n(g.cells[ax] + 1) as f64 / g.cells[ax] as f64, _ => r.fr(lim[0], lim[1]) };
            let k = if g.cyl && ax == 0 { g.shell(x, g.exact) } else { frac_cell((x - lim[0]) / (lim[1] - lim[0]), g.cells[ax], g.exact && !(g.cyl && ax == 1)) };
            if let Some(k) = k {
                let what = format!("{g:?}: slice({ax}, {x})");
                eq2(&what, &guard(|| b.slice(ax, x)).map_err(|e| format!("{what} {e}"))?, &layer(&m, ax, k))?;
            }
        }
    }
    let ax = r.pick(&[3usize, 4, 7]);
    refuses(&format!("{g:?}: slice along axis {ax}"), || b.slice(ax, g.center()[0]))?;
    refuses(&format!("{g:?}: slice_idx along axis {ax}"), || b.slice_idx(ax, 0))?;
    m.check_all(&format!("{g:?}: after slicing"), &*b)
}
pub fn outliers(m: &Model, t: f64, mode: usize) -> Model {
    let mut n = m.clone();
    for (k, x) in m.data.indexed_iter() {
        if !(*x > t) { continue; }
        match mode {
            0 => n.data[k] = 0.,
            1 => n.data[k] = t,
            _ => {
                let (mut s, mut w, mut c) = (0., 0., 0.);
                for i in -1i64..=1 { for j in -1i64..=1 { for l in -1i64..=1 {
                    if (i, j, l) == (0, 0, 0) { continue; }
                    let q = [k.0 as i64 + i, k.1 as i64 + j, k.2 as i64 + l];
                    if (0..3).any(|a| q[a] < 0 || q[a] >= m.g.cells[a] as i64) { continue; }
                    let q = [q[0] as usize, q[1] as usize, q[2] as usize];
                    if !m.g.cyl && m.data[q] > t { continue; }
                    s += m.data[q]; w += m.weight[q]; c += 1.;
                } } }
                n.data[k] = s / c;
                n.weight[k] = w / c;
            }
        }
    }
    n
}
pub fn c09(r: &mut Rng) -> R {
    let g = G::some(r);
    let mut b = g.build();
    let nan = r.pick(&[0., 0., 0.1]);
    b.set_data(rand3(r, g.cells, nan));
    b.set_weights(rand3(r, g.cells, 0.));
    let m = Model::of(&g, &*b);
    let t = r.pick(&[0., 2., 4., 6., 7.75, -3., 100., m.data.iter().copied().find(|x| !x.is_nan()).unwrap_or(1.)]);
    for mode in 0..3 {
        let mut c = b.clone();
        let what = format!("{g:?} threshold {t} mode {mode} data {:?} weights {:?}", m.data, m.weight);
        guard(|| c.outlier_removal(t, mode)).map_err(|e| format!("{what}: {e}"))?;
        outliers(&m, t, mode).check_all(&what, &*c)?;
        m.check_all(&format!("{what}: original"), &*b)?;
    }
    let mode = r.pick(&[3usize, 4, 17]);
    refuses(&format!("{g:?}: outlier mode {mode}"), || b.outlier_removal(t, mode))
}
pub fn c10(r: &mut Rng) -> R {
    let g = G::some(r);
    let b = g.dirty(r);
    let m = Model::of(&g, &*b);
    let mut v = guard(|| VectorGrid::new(b.clone())).map_err(|e| format!("{g:?}: VectorGrid::new {e}"))?;
    let mut ms = [m.clone(), m.clone(), m.clone()];
    let all = |what: &str, v: &VectorGrid, ms: &[Model; 3]| -> R { for i in 0..3 { ms[i].check_all(&format!("{what}: component {i}"), &*v.data[i])?; } Ok(()) };
    all(&format!("{g:?}: new"), &v, &ms)?;
    // the components may differ
    for i in 0..3 { if r.p(0.7) { ms[i].data = rand3(r, g.cells, 0.03); ms[i].weight = rand3(r, g.cells, 0.); v.data[i].set_data(ms[i].data.clone()); v.data[i].set_weights(ms[i].weight.clone()); } }
    for _ in 0..6 {
        let (p, q, x) = (g.sure(r), g.sure(r), r.small());
        let k = r.n(10);
        let mut c = ms.clone();
        let o = rand3(r, g.cells, 0.);
        let cell = [r.n(g.cells[0]), r.n(g.cells[1]), r.n(g.cells[2])];
        let mode = r.n(3);
        let name = ["add_value", "add_trajectory_value", "insert", "divide_by_array", "divide_by_scalar", "divide_by_weight", "set_weights", "outlier_removal", "add_to_cell", "new_zeros"][k];
        let what = format!("{g:?}: {name} at {p:?} {q:?} {x} {cell:?} mode {mode}");
        let mut fresh: Option<Box<dyn GridFunctions3D>> = None;
        guard(|| match k {
            0 => v.add_value(p, x), 1 => v.add_trajectory_value(p, q, x), 2 => v.insert(p, x), 3 => v.divide_by_array(&o), 4 => v.divide_by_scalar(x),
            5 => v.divide_by_weight(), 6 => v.set_weights(o.clone()), 7 => v.outlier_removal(x, mode), 8 => v.add_to_cell(cell, x), _ => fresh = Some(v.new_zeros()),
        }).map_err(|e| format!("{what} {e}"))?;
        for m in c.iter_mut() {
            match k {
                0 => m.add(p, x), 1 => m.traj(p, q, x), 2 => m.insert(p, x),
                3 => m.data = &m.data / &o, 4 => m.data = &m.data / x, 5 => m.data = &m.data / &m.weight, 6 => m.weight = o.clone(),
                7 => *m = outliers(m, x, mode), 8 => m.add_at(cell, x, 1.), _ => {}
            }
        }
        ms = c;
        all(&what, &v, &ms)?;
        if let Some(f) = fresh {
            let w = f.as_any().downcast_ref::<VectorGrid>().ok_or(format!("{what}: not a vector grid"))?;
            for i in 0..3 { Model::new(&g).check_all(&format!("{what}: component {i}"), &*w.data[i])?; }
        }
        let first = &v.data[0];
        ensure(v.is_inside(p) == (g.cell(p).is_some()), || format!("{what}: is_inside"))?;
        ensure(v.cell_id(p).ok() == g.cell(p), || format!("{what}: cell_id {:?}", v.cell_id(p).ok()))?;
        g.same_geometry(&what, &v)?;
        eq3(&what, v.get_data(), first.get_data())?;
        eq3(&what, v.get_weights(), first.get_weights())?;
        for a in 0..3 { eq2(&format!("{what}: collapse_weight"), &v.collapse_weight(a), &collapse(&ms[0], a).1)?; let a2 = (a + 1) % 3; let (x, y) = collapse_two(&ms[0], a, a2); eq1(&format!("{what}: collapse_two"), &v.collapse_two(a, a2), &x)?; eq1(&format!("{what}: collapse_two_weight"), &v.collapse_two_weight(a, a2), &y)?; }
    }
    let p = g.calm(r);
    let vel = [r.small(), r.small(), r.small()];
    let got = guard(|| v.velocity_calculation(p, array![vel[0], vel[1], vel[2]])).map_err(|e| format!("{g:?}: velocity_calculation {e}"))?;
    let want = velocity(&g, p, vel);
    ensure((0..3).all(|i| same(got[i], want[i])), || format!("{g:?}: velocity {vel:?} at {p:?} becomes {got:?}, expected {want:?}"))
}
pub fn velocity(g: &G, p: [f64; 3], v: [f64; 3]) -> [f64; 3] {
    if !g.cyl { return v; }
    let c = g.center();
    let (x, y) = (p[0] - c[0], p[1] - c[1]);
    let rr = x * x + y * y;
    [(x * v[0] + y * v[1]) / rr.sqrt(), (x * v[1] - y * v[0]) / rr, v[2]]
}
