//! C37: VTK files, through both converters, in the file and read back.
use crate::common::*;
use crate::convert::{grid, holds, list, scalar, stats, Folder};
use upppp_rust::converter::{LegacyVTKConverter, VTKType, XMLVTKConverter};
use upppp_rust::datamanager::*;
use vtkio::model::{Attribute, Attributes, DataArrayBase, DataSet, IOBuffer, Piece, Vtk};

/// the particles of one file
struct Particles { ids: Vec<u64>, radius: Vec<f64>, kind: Vec<u64>, vel: Vec<[f64; 3]>, pos: Vec<[f64; 3]> }
fn flat(v: &[[f64; 3]]) -> Vec<f64> { v.iter().flatten().copied().collect() }
fn real(v: &[u64]) -> Vec<f64> { v.iter().map(|x| *x as f64).collect() }
fn array(name: &str, v: &[f64]) -> DataArrayBase { DataArrayBase { name: name.into(), data: IOBuffer(v.to_vec()) } }
/// the file that holds them, in one or several pieces
fn file(r: &mut Rng, p: &Particles, legacy: bool, poly: bool) -> Vtk {
    let n = p.ids.len();
    let cuts: Vec<usize> = if legacy { vec![0, n] } else { let mut c = vec![0, n]; for _ in 0..r.n(3) { c.push(r.n(n + 1)); } c.sort(); c };
    let diameter: Vec<f64> = p.radius.iter().map(|x| x * 2.).collect();
    let pieces = cuts.windows(2).map(|w| {
        let (a, b) = (w[0], w[1]);
        let mut data = vec![array("junk", &vec![7.; b - a]), array("id", &real(&p.ids)[a..b]), array("r", &p.radius[a..b]), array("d", &diameter[a..b]), array("t", &real(&p.kind)[a..b]), array("v", &flat(&p.vel)[3 * a..3 * b]), array("v2", &vec![1.; 3 * (b - a)])];
        for i in (1..data.len()).rev() { let j = r.n(i + 1); data.swap(i, j); }
        let point = if legacy { vec![Attribute::Field { name: "FieldData".into(), data_array: data }] } else { data.into_iter().map(Attribute::DataArray).collect() };
        Piece { points: IOBuffer(flat(&p.pos)[3 * a..3 * b].to_vec()), data: Attributes { point, cell: vec![] } }
    }).collect();
    Vtk { data: if poly { DataSet::PolyData { meta: (), pieces } } else { DataSet::UnstructuredGrid { meta: (), pieces } } }
}
pub fn c37(r: &mut Rng) -> R {
    let legacy = r.p(0.5);
    let poly = legacy || r.p(0.5);
    let n = r.pick(&[1usize, 1, 2, 2, 3, 4, 5]);
    let mut step = r.pick(&[0i64, 0, 1, 10, 1000]);
    let dt = r.pick(&[1., 0.5, 1e-3, 2., 1e-5]);
    let mut steps: Vec<i64> = (0..n).map(|i| { if i > 0 { step += r.pick(&[0i64, 1, 1, 5, 100]); } step }).collect();
    let folder = r.p(0.25);
    if folder { steps.dedup(); }
    let n = steps.len();
    if r.p(0.1) && n > 1 && !folder { let (a, b) = (r.n(n), r.n(n)); steps.swap(a, b); }
    if r.p(0.04) && !folder { steps[0] = -1; }
    let dir = Folder::new(r);
    let end = if legacy || r.p(0.6) { "vtk" } else if poly { "vtp" } else { "vtu" };
    let twice = r.p(0.2);
    // the names in a folder: with a number before the step, and with the extension of either kind of XML file
    let (runs, mixed, closed) = (r.p(0.4), folder && !legacy && r.p(0.4), r.p(0.5));
    let padded = if r.p(0.5) && steps.iter().skip(1).all(|s| *s > 0) { r.n(n + 1) } else { 0 };
    let other = if poly { "vtp" } else { "vtu" };
    let names: Vec<String> = steps.iter().enumerate().map(|(i, s)| dir.file(&if twice && !folder { format!("f{i}_out_{s}_out_{}.{end}", r.n(9)) } else if folder { let end = if mixed && i % 2 == 1 { other } else if mixed { "vtk" } else { end }; if runs { format!("r{}_out_{s}.{end}", 8 + i) } else if i < padded { format!("out_{s:05}.{end}") } else { format!("out_{s}.{end}") } } else { format!("f{i}_out_{s}.{end}") })).collect();
    let highest = r.pick(&[3usize, 10, 100000]);
    let all: Vec<Particles> = (0..n).map(|_| {
        let k = r.r(1, 8);
        let triple = |r: &mut Rng| [r.small(), r.small(), r.small()];
        Particles { ids: (0..k).map(|_| r.n(highest + 1) as u64).collect(), radius: (0..k).map(|_| r.small()).collect(), kind: (0..k).map(|_| r.r(0, 4) as u64).collect(), vel: (0..k).map(|_| triple(r)).collect(), pos: (0..k).map(|_| triple(r)).collect() }
    }).collect();
    for (p, name) in all.iter().zip(&names) { let f = file(r, p, legacy, poly); vtkio::model::put(name, f); std::fs::write(name, "").unwrap(); }
    if folder { for x in ["notes.txt", "out_3_boundingBox.vtk", "out_3_boundingBox.vtp", "out_3_boundingBox.vtu", "out_4.dat", "out_5.vtk.bak", "out_6vtk", if poly { "out_7.vtu" } else { "out_7.vtp" }, if legacy { "out_7.vtp" } else { "out_7.txt" }] { std::fs::write(dir.file(x), "").unwrap(); } }
    let (radius, diameter, kind) = match r.n(3) { 0 => ("r", ""), 1 => ("", "d"), _ => ("r", "junk") }.pipe(|(a, b)| (a, b, r.p(0.6)));
    let filter = if twice { r"out_(-?\d+)".into() } else { format!(r"out_(-?\d+).{}", if mixed { "vt" } else { end }) };
    let what = format!("{} (radius {radius:?}, diameter {diameter:?}, type {kind}) of {} with timestep {dt}, particle numbers {:?}", if legacy { "the legacy converter" } else { "the XML converter" }, names.iter().map(|n| n.rsplit('/').next().unwrap()).collect::<Vec<_>>().join(", "), all.iter().map(|p| p.ids.clone()).collect::<Vec<_>>());
    let out = dir.file("out.hdf5");
    let fields = [("id", "v", radius, diameter, if kind { "t" } else { "" })];
    let run = |f: (&str, &str, &str, &str, &str), filter: &str, names: &[String], poly: bool| guard(|| {
        let list: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let at = &format!("{}{}", dir.0.to_str().unwrap(), if closed { "/" } else { "" });
        macro_rules! go { ($c:expr) => {{
            let mut c = $c;
            if f.0 != "" { c = c.add_id_field(f.0); } if f.1 != "" { c = c.add_velocity_field(f.1); } if f.2 != "" { c = c.add_radius_field(f.2); } if f.3 != "" { c = c.add_diameter_field(f.3); } if f.4 != "" { c = c.add_type_field(f.4); }
            if folder { c.write_hdf5_from_folder(at, dt, &out, filter) } else { c.write_hdf5_from_files(list, dt, &out, filter) }
        }} }
        if legacy { go!(LegacyVTKConverter::new()) } else { go!(XMLVTKConverter::new(if poly { VTKType::PolyData } else { VTKType::UnstructuredGrid })) }
    });
    let res = check(r, &what, &all, &steps, dt, legacy, poly, folder, kind, fields[0], &filter, &names, &out, &run);
    for n in &names { vtkio::model::remove(n); }
    hdf5::remove(&out);
    res
}
trait Pipe: Sized { fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T { f(self) } }
impl<T> Pipe for T {}
type F<'a> = (&'a str, &'a str, &'a str, &'a str, &'a str);
fn check(r: &mut Rng, what: &str, all: &[Particles], steps: &[i64], dt: f64, legacy: bool, poly: bool, folder: bool, kind: bool, f: F, filter: &str, names: &[String], out: &str, run: &dyn Fn(F, &str, &[String], bool) -> Result<(), String>) -> R {
    // what is refused
    if r.p(0.3) {
        let no = |why: &str, f: F, filter: &str, names: &[String], poly: bool| refuses(&format!("{what} {why}"), || run(f, filter, names, poly).unwrap());
        match r.n(9) {
            0 if folder => { for n in names { let _ = std::fs::remove_file(n); } return no("from a folder without files", f, filter, names, poly); }
            0 => return no("without files", f, filter, &[], poly),
            1 => return no("with a filter that does not match", f, r"other_(\d+)", names, poly),
            2 => return no("with a filter that picks no number", f, r"out_\d+", names, poly),
            3 => return no("with a filter that picks a text", f, r"(out)_", names, poly),
            4 => return no("without an id field", ("", f.1, f.2, f.3, f.4), filter, names, poly),
            5 => return no("without a velocity field", (f.0, "", f.2, f.3, f.4), filter, names, poly),
            6 => return no("without radius and diameter", (f.0, f.1, "", "", f.4), filter, names, poly),
            7 => return no("with a velocity field that the files do not have", (f.0, "w", f.2, f.3, f.4), filter, names, poly),
            8 if !legacy => return no("as the other type of data", f, filter, names, !poly),
            _ => {}
        }
    }
    let times: Vec<f64> = steps.iter().map(|s| *s as f64 * dt).collect();
    if (0..times.len()).any(|k| times[k] < if k == 0 { 0. } else { times[k - 1] }) { return refuses(what, || run(f, filter, names, poly).unwrap()); }
    run(f, filter, names, poly).map_err(|e| format!("{what} {e}"))?;
    (|| {
        let c = hdf5::get(out).ok_or("no file was written".to_string())?;
        let n = all.len();
        ensure(c.groups.len() == n, || format!("groups {:?}", c.groups.keys()))?;
        // the rows of each file by particle number: x y z vx vy vz r t id
        let rows: Vec<Vec<Vec<f64>>> = all.iter().map(|p| {
            let mut o: Vec<usize> = (0..p.ids.len()).collect();
            o.sort_by_key(|i| p.ids[*i]);
            o.iter().map(|i| { let mut x = p.pos[*i].to_vec(); x.extend(p.vel[*i]); x.push(p.radius[*i]); x.push(if kind { p.kind[*i] as f64 } else { 1. }); x.push(p.ids[*i] as f64); x }).collect()
        }).collect();
        let column = |x: &[Vec<f64>], c: usize| x.iter().map(|x| x[c]).collect::<Vec<_>>();
        for (k, x) in rows.iter().enumerate() {
            let g = format!("timestep {k}");
            let g = Some(g.as_str());
            holds(&c, g, false, "time", &scalar(times[k]))?;
            holds(&c, g, false, "id", &list(&column(x, 8)))?;
            holds(&c, g, false, "radius", &list(&column(x, 6)))?;
            holds(&c, g, false, "particletype", &list(&column(x, 7)))?;
            holds(&c, g, false, "ppcloud", &list(&vec![1.; x.len()]))?;
            holds(&c, g, false, "position", &grid(x, 0..3))?;
            holds(&c, g, false, "velocity", &grid(x, 3..6))?;
        }
        holds(&c, None, false, "time array", &list(&times))?;
        let most = all.iter().flat_map(|p| p.ids.iter()).max().unwrap();
        let sample = times[n - 1] - if n > 1 { times[n - 2] } else { 0. };
        for (name, x) in [("hdf5_up4_type", 1.), ("particle number", *most as f64), ("timesteps", n as f64), ("sample rate", sample)] { holds(&c, None, true, name, &scalar(x))?; }
        holds(&c, None, true, "time", &list(&[times[0], times[n - 1]]))?;
        stats(rows.iter().flatten(), 0).held(&c)?;
        // and read back
        let mut d = TData::new(out);
        let s = d.global_stats();
        ensure(*s.timesteps() == n && *s.nparticles() == *most as usize, || format!("read back, the statistics are {s:?}"))?;
        for (k, x) in rows.iter().enumerate() {
            let t = d.get_timestep(k);
            ensure(tol(*t.time(), times[k], 1e-9) && t.position().len() == x.len() && x.iter().enumerate().all(|(i, x)| (0..3).all(|a| t.position()[i][a] == x[a] && t.velocity()[[i, a]] == x[3 + a]) && t.radius()[i] == x[6] && t.ptype()[i] == x[7] && t.particleid()[i] == x[8] && t.clouds()[i] == 1.),
                || format!("read back, timestep {k} is {t:?}, the file has {x:?} at {}", times[k]))?;
        }
        Ok(())
    })().map_err(|m: String| format!("{what}: {m}"))
}
