%import readers.vc
%const src/datamanager/pdata.rs BUFFERSIZE
%struct src/datamanager/pdata.rs PData
%raw
// a file by particle: one group per particle, one row per timestep
pub open spec fn grp(f: File, p: int) -> Group { f.group_(fmt1_("particle {}"@, p)) }
pub open spec fn file_ok(f: File) -> bool { attrs_ok(f) && 1 <= parts(f) && (forall|p: int| 0 <= p < parts(f) ==> #[trigger] part_ok(f, p)) && grp(f, 0).has("time"@) && grp(f, 0).ds("time"@).is1::<F>() && grp(f, 0).ds("time"@).one::<F>()@.len() >= steps(f) }
pub open spec fn rows_ok(c: Container, n: int) -> bool { c.is2::<F>() && c.two::<F>().dimv().0 >= n && c.two::<F>().dimv().1 == 3 }
pub open spec fn col_ok(f: File, p: int, n: Seq<char>) -> bool { grp(f, p).has(n) ==> grp(f, p).ds(n).is1::<F>() && grp(f, p).ds(n).one::<F>()@.len() >= steps(f) }
pub open spec fn part_ok(f: File, p: int) -> bool {
    let g = grp(f, p);
    f.has_group(fmt1_("particle {}"@, p)) && g.has("position"@) && rows_ok(g.ds("position"@), steps(f)) && g.has("velocity"@) && rows_ok(g.ds("velocity"@), steps(f))
    && col_ok(f, p, "radius"@) && col_ok(f, p, "particletype"@) && col_ok(f, p, "density"@)
}
// the k-th number of a column that may be missing
pub open spec fn col(f: File, p: int, n: Seq<char>, k: int) -> F { if grp(f, p).has(n) { grp(f, p).ds(n).one::<F>()@[k] } else { fl(0, 1) } }
pub open spec fn pos(f: File, p: int, k: int) -> Seq<F> { row3(grp(f, p).ds("position"@).two::<F>(), k) }
pub open spec fn vel(f: File, p: int, k: int, j: int) -> F { grp(f, p).ds("velocity"@).two::<F>()@[(k, j)] }
pub open spec fn tim(f: File, k: int) -> F { grp(f, 0).ds("time"@).one::<F>()@[k] }
// t is what the file holds of timestep k
pub open spec fn is_record(f: File, k: int, t: Timestep) -> bool {
    let n = parts(f);
    t.time == tim(f, k) && t.position@.len() == n && (forall|p: int| 0 <= p < n ==> (#[trigger] t.position@[p])@ == pos(f, p, k)) && t.velocity.dimv() == (n, 3int) && (forall|p: int, j: int| 0 <= p < n && 0 <= j < 3 ==> #[trigger] t.velocity@[(p, j)] == vel(f, p, k, j))
    && t.radius@.len() == n && (forall|p: int| 0 <= p < n ==> #[trigger] t.radius@[p] == col(f, p, "radius"@, k)) && t.ptype@.len() == n && (forall|p: int| 0 <= p < n ==> #[trigger] t.ptype@[p] == col(f, p, "particletype"@, k))
    && t.density@.len() == n && (forall|p: int| 0 <= p < n ==> #[trigger] t.density@[p] == col(f, p, "density"@, k)) && t.particleid@.len() == n && (forall|p: int| 0 <= p < n ==> #[trigger] t.particleid@[p] == fl(p, 1))
    && t.clouds@.len() == n && (forall|p: int| 0 <= p < n ==> #[trigger] t.clouds@[p] == fl(1, 1))
}
// slot i of a buffer holds timestep i of its range
pub open spec fn loaded(f: File, b: Seq<Timestep>, r: (usize, usize)) -> bool {
    b.len() == BUFFERSIZE && 0 <= r.0 < r.1 <= steps(f) && r.1 - r.0 <= BUFFERSIZE && forall|i: int| r.0 <= i < r.1 ==> is_record(f, i, #[trigger] b[i - r.0])
}
impl PData {
    pub open spec fn base(&self) -> bool {
        file_ok(self.file) && stats_of(self.file, self.global_stats_)
        && self.buffer@.len() == BUFFERSIZE && self.extra_buffers@.len() == self.range_extra@.len() && self.extra_buffers@.len() == self.buffersize_extra@.len() && self.extra_buffers@.len() == self.external_buffer_names@.len()
        && (forall|b: int| 0 <= b < self.extra_buffers@.len() ==> (#[trigger] self.extra_buffers@[b])@.len() == BUFFERSIZE)
        && (forall|a: int, b: int| 0 <= a < b < self.external_buffer_names@.len() ==> #[trigger] self.external_buffer_names@[a] != #[trigger] self.external_buffer_names@[b])
    }
    pub open spec fn main_ok(&self) -> bool { loaded(self.file, self.buffer@, self.range) && 1 <= self.buffersize <= BUFFERSIZE }
    pub open spec fn extra_ok(&self, b: int) -> bool { loaded(self.file, self.extra_buffers@[b]@, self.range_extra@[b]) && 1 <= self.buffersize_extra@[b] <= BUFFERSIZE }
    pub open spec fn wf(&self) -> bool { self.base() && self.main_ok() && forall|b: int| #![trigger self.extra_ok(b)] #![trigger self.extra_buffers@[b]] 0 <= b < self.extra_buffers@.len() ==> self.extra_ok(b) }
    pub open spec fn same_main(&self, o: PData) -> bool { self.buffer == o.buffer && self.range == o.range && self.buffersize == o.buffersize }
    pub open spec fn same_extra(&self, o: PData) -> bool { self.extra_buffers == o.extra_buffers && self.range_extra == o.range_extra && self.buffersize_extra == o.buffersize_extra && self.external_buffer_names == o.external_buffer_names }
    pub open spec fn same_file(&self, o: PData) -> bool { self.file == o.file && self.global_stats_ == o.global_stats_ }
}
%end
%fn src/datamanager/pdata.rs PData::global_stats
@ret r
@requires
    file_ok(self.file),
@ensures
    stats_of(self.file, r),
%fn src/datamanager/pdata.rs PData::read_single
@attr #[verifier::loop_isolation(false)]
@ret r
@requires
    self.base(), timestep < steps(self.file),
@ensures
    is_record(self.file, timestep as int, r),
@loop 0
    invariant __i0 <= __n0, __n0 == parts(self.file), position@.len() == particles, velocity.dimv() == (particles as int, 3int), radius@.len() == particles, ptype@.len() == particles, density@.len() == particles, particleid@.len() == particles, time@.len() == particles,
        forall|p: int| 0 <= p < __i0 ==> (#[trigger] position@[p])@ == pos(self.file, p, timestep as int), forall|p: int, j: int| 0 <= p < __i0 && 0 <= j < 3 ==> #[trigger] velocity@[(p, j)] == vel(self.file, p, timestep as int, j),
        forall|p: int| 0 <= p < __i0 ==> #[trigger] radius@[p] == col(self.file, p, "radius"@, timestep as int), forall|p: int| 0 <= p < __i0 ==> #[trigger] ptype@[p] == col(self.file, p, "particletype"@, timestep as int),
        forall|p: int| 0 <= p < __i0 ==> #[trigger] density@[p] == col(self.file, p, "density"@, timestep as int), forall|p: int| 0 <= p < __i0 ==> #[trigger] particleid@[p] == fl(p, 1), forall|p: int| 0 <= p < __i0 ==> #[trigger] time@[p] == tim(self.file, timestep as int),
    decreases __n0 - __i0
@body 0
    assert(part_ok(self.file, particle_id as int)); assert(part_ok(self.file, 0));
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%fn src/datamanager/pdata.rs PData::update
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).base(), range.0 < least(range.1 as int, steps(old(self).file)), least(range.1 as int, steps(old(self).file)) - range.0 <= BUFFERSIZE,
@ensures
    final(self).base(), final(self).main_ok(), final(self).same_extra(*old(self)), final(self).same_file(*old(self)), final(self).range.0 == range.0, final(self).range.1 == least(range.1 as int, steps(old(self).file)),
@loop 0
    invariant __i0 <= __n0, __n0 == parts(self.file), self.base(), self.same_extra(*old(self)), self.same_file(*old(self)), self.buffersize == range.1 - range.0,
        cols_ok(self.file, range, __i0 as int, position, velocity, radius, ptype, density, particleid, time),
    decreases __n0 - __i0
@body 0
    assert(part_ok(self.file, particle_id as int)); assert(part_ok(self.file, 0));
@loop 1
    invariant __i1 <= __n1, __n1 == range.1 - range.0, self.base(), self.same_extra(*old(self)), self.same_file(*old(self)), self.buffersize == range.1 - range.0,
        forall|i: int| range.0 <= i < range.0 + __i1 ==> is_record(self.file, i, #[trigger] self.buffer@[i - range.0]),
    decreases __n1 - __i1
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%fn src/datamanager/pdata.rs PData::update_extra
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).base(), buffer_id < old(self).extra_buffers@.len(), range.0 < least(range.1 as int, steps(old(self).file)), least(range.1 as int, steps(old(self).file)) - range.0 <= BUFFERSIZE,
@ensures
    final(self).base(), final(self).same_main(*old(self)), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, final(self).extra_buffers@.len() == old(self).extra_buffers@.len(),
    final(self).extra_ok(buffer_id as int), final(self).range_extra@[buffer_id as int].0 == range.0, final(self).range_extra@[buffer_id as int].1 == least(range.1 as int, steps(old(self).file)),
    forall|b: int| 0 <= b < old(self).extra_buffers@.len() && b != buffer_id && old(self).extra_ok(b) ==> #[trigger] final(self).extra_ok(b),
@loop 0
    invariant __i0 <= __n0, __n0 == parts(self.file), self.base(), self.same_main(*old(self)), self.same_file(*old(self)), self.external_buffer_names == old(self).external_buffer_names, self.extra_buffers == old(self).extra_buffers, self.range_extra == old(self).range_extra,
        self.buffersize_extra@ == old(self).buffersize_extra@.update(buffer_id as int, (range.1 - range.0) as usize), cols_ok(self.file, range, __i0 as int, position, velocity, radius, ptype, density, particleid, time),
    decreases __n0 - __i0
@body 0
    assert(part_ok(self.file, particle_id as int)); assert(part_ok(self.file, 0));
@loop 1
    invariant __i1 <= __n1, __n1 == range.1 - range.0, self.base(), self.same_main(*old(self)), self.same_file(*old(self)), self.external_buffer_names == old(self).external_buffer_names, self.extra_buffers@.len() == old(self).extra_buffers@.len(),
        self.range_extra == old(self).range_extra, self.buffersize_extra@ == old(self).buffersize_extra@.update(buffer_id as int, (range.1 - range.0) as usize), forall|b: int| 0 <= b < self.extra_buffers@.len() && b != buffer_id ==> #[trigger] self.extra_buffers@[b] == old(self).extra_buffers@[b],
        forall|i: int| range.0 <= i < range.0 + __i1 ==> is_record(self.file, i, #[trigger] self.extra_buffers@[buffer_id as int]@[i - range.0]),
    decreases __n1 - __i1
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%raw
// column p of the buffer's arrays is what the file holds of particle p
pub open spec fn cols_ok(f: File, r: (usize, usize), n: int, position: Array2<Position>, velocity: Array3<F>, radius: Array2<F>, ptype: Array2<F>, density: Array2<F>, particleid: Array2<F>, time: Array2<F>) -> bool {
    let m = r.1 - r.0; let d = (m, parts(f));
    position.dimv() == d && velocity.dimv() == (m, parts(f), 3int) && radius.dimv() == d && ptype.dimv() == d && density.dimv() == d && particleid.dimv() == d && time.dimv() == d
    && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> (#[trigger] position@[(i, p)])@ == pos(f, p, r.0 + i)) && (forall|i: int, p: int, j: int| 0 <= i < m && 0 <= p < n && 0 <= j < 3 ==> #[trigger] velocity@[(i, p, j)] == vel(f, p, r.0 + i, j))
    && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> #[trigger] radius@[(i, p)] == col(f, p, "radius"@, r.0 + i)) && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> #[trigger] ptype@[(i, p)] == col(f, p, "particletype"@, r.0 + i))
    && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> #[trigger] density@[(i, p)] == col(f, p, "density"@, r.0 + i)) && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> #[trigger] particleid@[(i, p)] == fl(p, 1))
    && (forall|i: int, p: int| 0 <= i < m && 0 <= p < n ==> #[trigger] time@[(i, p)] == tim(f, r.0 + i))
}
%end
%fn src/datamanager/pdata.rs PData::new
@ret r
@requires
    file_named(filename@) is Some, file_ok(file_named(filename@)->0),
@ensures
    r.wf(), Some(r.file) == file_named(filename@),
%fn src/datamanager/pdata.rs PData::get_timestep
@ret r
@requires
    old(self).wf(), timestep < steps(old(self).file),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, is_record(old(self).file, timestep as int, *r),
@entry
    proof { ax_floor_div(timestep as int, BUFFERSIZE as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(timestep as int, BUFFERSIZE as int); }
%fn src/datamanager/pdata.rs PData::get_timestep_unbuffered
@ret r
@requires
    self.wf(), timestep < steps(self.file),
@ensures
    is_record(self.file, timestep as int, r),
%fn src/datamanager/pdata.rs PData::setup_buffer
@requires
    old(self).wf(),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names@.contains(external_buffer_id), forall|n: usize| old(self).external_buffer_names@.contains(n) ==> #[trigger] final(self).external_buffer_names@.contains(n),
@closure 0
    |__p0: &usize| -> (b: bool) ensures b == (*__p0 == external_buffer_id)
@entry
    let ghost s0 = *self;
@exit
    proof { let n = self.external_buffer_names@;
        assert(n[buffer_id as int] == external_buffer_id); assert(self.base()); assert(self.main_ok()); assert(self.extra_ok(buffer_id as int)); assert forall|b: int| 0 <= b < self.extra_buffers@.len() && b != buffer_id implies self.extra_ok(b) by { assert(s0.extra_ok(b)); }
        assert forall|x: usize| s0.external_buffer_names@.contains(x) implies #[trigger] n.contains(x) by { let i = choose|i: int| 0 <= i < s0.external_buffer_names@.len() && s0.external_buffer_names@[i] == x; assert(n[i] == x); } }
%fn src/datamanager/pdata.rs PData::get_timestep_buffer
@ret r
@requires
    old(self).wf(), timestep < steps(old(self).file), old(self).external_buffer_names@.contains(external_buffer_id),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, is_record(old(self).file, timestep as int, *r),
@closure 0
    |__p0: &usize| -> (b: bool) ensures b == (*__p0 == external_buffer_id)
@after buffer_id
    proof { assert(self.extra_ok(buffer_id as int)); }
