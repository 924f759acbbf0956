%import readers.vc
%const src/datamanager/tdata.rs BUFFERSIZE
%struct src/datamanager/tdata.rs TData
%raw
// a file by timestep: one group per timestep
pub open spec fn grp(f: File, k: int) -> Group { f.group_(fmt1_("timestep {}"@, k)) }
pub open spec fn file_ok(f: File) -> bool { attrs_ok(f) && forall|k: int| 0 <= k < steps(f) ==> #[trigger] step_ok(f, k) }
pub open spec fn step_ok(f: File, k: int) -> bool {
    let g = grp(f, k);
    f.has_group(fmt1_("timestep {}"@, k)) && g.has("position"@) && g.ds("position"@).is2::<F>() && g.ds("position"@).two::<F>().dimv().1 == 3 && g.has("velocity"@) && g.ds("velocity"@).is2::<F>()
    && g.has("radius"@) && g.ds("radius"@).is1::<F>() && (g.has("density"@) ==> g.ds("density"@).is1::<F>()) && g.has("ppcloud"@) && g.ds("ppcloud"@).is1::<F>() && g.has("time"@) && g.ds("time"@).is0::<F>()
    && g.has("particletype"@) && g.ds("particletype"@).is1::<F>() && g.has("id"@) && g.ds("id"@).is1::<F>()
}
// t is what the file holds of timestep k
pub open spec fn is_record(f: File, k: int, t: Timestep) -> bool {
    let g = grp(f, k); let p = g.ds("position"@).two::<F>();
    t.time == g.ds("time"@).scalar::<F>() && t.position@.len() == p.dimv().0 && (forall|i: int| 0 <= i < t.position@.len() ==> (#[trigger] t.position@[i])@ == row3(p, i)) && same2(t.velocity, g.ds("velocity"@).two::<F>())
    && t.radius@ == g.ds("radius"@).one::<F>()@ && t.particleid@ == g.ds("id"@).one::<F>()@ && t.clouds@ == g.ds("ppcloud"@).one::<F>()@ && t.ptype@ == g.ds("particletype"@).one::<F>()@
    && t.density@ == (if g.has("density"@) { g.ds("density"@).one::<F>()@ } else { Seq::new(t.radius@.len(), |i: int| fl(1, 1)) })
}
// slot i of a buffer holds timestep i of its range
pub open spec fn loaded(f: File, b: Seq<Timestep>, r: (usize, usize)) -> bool {
    b.len() == BUFFERSIZE && 0 <= r.0 < r.1 <= steps(f) && r.1 - r.0 <= BUFFERSIZE && forall|i: int| r.0 <= i < r.1 ==> is_record(f, i, #[trigger] b[i - r.0])
}
impl TData {
    pub open spec fn base(&self) -> bool {
        file_ok(self.file) && stats_of(self.file, self.global_stats_)
        && self.buffer@.len() == BUFFERSIZE && self.buffer_extra@.len() == self.range_extra@.len() && self.buffer_extra@.len() == self.buffersize_extra@.len() && self.buffer_extra@.len() == self.external_buffer_names@.len()
        && (forall|b: int| 0 <= b < self.buffer_extra@.len() ==> (#[trigger] self.buffer_extra@[b])@.len() == BUFFERSIZE)
        && (forall|a: int, b: int| 0 <= a < b < self.external_buffer_names@.len() ==> #[trigger] self.external_buffer_names@[a] != #[trigger] self.external_buffer_names@[b])
    }
    pub open spec fn main_ok(&self) -> bool { loaded(self.file, self.buffer@, self.range) && 1 <= self.buffersize <= BUFFERSIZE }
    pub open spec fn extra_ok(&self, b: int) -> bool { loaded(self.file, self.buffer_extra@[b]@, self.range_extra@[b]) && 1 <= self.buffersize_extra@[b] <= BUFFERSIZE }
    pub open spec fn wf(&self) -> bool { self.base() && self.main_ok() && forall|b: int| #![trigger self.extra_ok(b)] #![trigger self.buffer_extra@[b]] 0 <= b < self.buffer_extra@.len() ==> self.extra_ok(b) }
    pub open spec fn same_main(&self, o: TData) -> bool { self.buffer == o.buffer && self.range == o.range && self.buffersize == o.buffersize }
    pub open spec fn same_extra(&self, o: TData) -> bool { self.buffer_extra == o.buffer_extra && self.range_extra == o.range_extra && self.buffersize_extra == o.buffersize_extra && self.external_buffer_names == o.external_buffer_names }
    pub open spec fn same_file(&self, o: TData) -> bool { self.file == o.file && self.global_stats_ == o.global_stats_ }
}
%end
%fn src/datamanager/tdata.rs TData::global_stats
@ret r
@requires
    file_ok(self.file),
@ensures
    stats_of(self.file, r),
%fn src/datamanager/tdata.rs TData::read_single
@ret r
@requires
    self.base(), timestep < steps(self.file),
@ensures
    is_record(self.file, timestep as int, r),
@entry
    assert(step_ok(self.file, timestep as int));
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%fn src/datamanager/tdata.rs TData::update
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).base(), range.0 < least(range.1 as int, steps(old(self).file)), least(range.1 as int, steps(old(self).file)) - range.0 <= BUFFERSIZE,
@ensures
    final(self).base(), final(self).main_ok(), final(self).same_extra(*old(self)), final(self).same_file(*old(self)), final(self).range.0 == range.0, final(self).range.1 == least(range.1 as int, steps(old(self).file)),
@loop 0
    invariant __i0 <= __n0, range.0 <= __i0, self.base(), self.same_extra(*old(self)), self.same_file(*old(self)), self.buffersize == range.1 - range.0,
        forall|i: int| range.0 <= i < __i0 ==> is_record(self.file, i, #[trigger] self.buffer@[i - range.0]),
    decreases __n0 - __i0
@body 0
    assert(step_ok(self.file, timestep as int));
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%fn src/datamanager/tdata.rs TData::update_extra
@attr #[verifier::loop_isolation(false)]
@requires
    old(self).base(), buffer_id < old(self).buffer_extra@.len(), range.0 < least(range.1 as int, steps(old(self).file)), least(range.1 as int, steps(old(self).file)) - range.0 <= BUFFERSIZE,
@ensures
    final(self).base(), final(self).same_main(*old(self)), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, final(self).buffer_extra@.len() == old(self).buffer_extra@.len(),
    final(self).extra_ok(buffer_id as int), final(self).range_extra@[buffer_id as int].0 == range.0, final(self).range_extra@[buffer_id as int].1 == least(range.1 as int, steps(old(self).file)),
    forall|b: int| 0 <= b < old(self).buffer_extra@.len() && b != buffer_id && old(self).extra_ok(b) ==> #[trigger] final(self).extra_ok(b),
@loop 0
    invariant __i0 <= __n0, range.0 <= __i0, self.base(), self.same_main(*old(self)), self.same_file(*old(self)), self.external_buffer_names == old(self).external_buffer_names, self.buffer_extra@.len() == old(self).buffer_extra@.len(),
        self.range_extra == old(self).range_extra, self.buffersize_extra@ == old(self).buffersize_extra@.update(buffer_id as int, (range.1 - range.0) as usize), forall|b: int| 0 <= b < self.buffer_extra@.len() && b != buffer_id ==> #[trigger] self.buffer_extra@[b] == old(self).buffer_extra@[b],
        forall|i: int| range.0 <= i < __i0 ==> is_record(self.file, i, #[trigger] self.buffer_extra@[buffer_id as int]@[i - range.0]),
    decreases __n0 - __i0
@body 0
    assert(step_ok(self.file, timestep as int));
@closure 0
    |__p0: Array1<F>| -> (b: Position) requires __p0@.len() == 3 ensures b@ == seq![__p0@[0], __p0@[1], __p0@[2]]
%fn src/datamanager/tdata.rs TData::new
@ret r
@requires
    file_named(filename@) is Some, file_ok(file_named(filename@)->0),
@ensures
    r.wf(), Some(r.file) == file_named(filename@),
%fn src/datamanager/tdata.rs TData::get_timestep
@ret r
@requires
    old(self).wf(), timestep < steps(old(self).file),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, is_record(old(self).file, timestep as int, *r),
@entry
    proof { ax_floor_div(timestep as int, BUFFERSIZE as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(timestep as int, BUFFERSIZE as int); }
%fn src/datamanager/tdata.rs TData::get_timestep_unbuffered
@ret r
@requires
    self.wf(), timestep < steps(self.file),
@ensures
    is_record(self.file, timestep as int, r),
%fn src/datamanager/tdata.rs TData::setup_buffer
@requires
    old(self).wf(),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names@.contains(external_buffer_id), forall|n: usize| old(self).external_buffer_names@.contains(n) ==> #[trigger] final(self).external_buffer_names@.contains(n),
@closure 0
    |__p0: &usize| -> (b: bool) ensures b == (*__p0 == external_buffer_id)
@entry
    let ghost s0 = *self;
@exit
    proof { let n = self.external_buffer_names@;
        assert(n[buffer_id as int] == external_buffer_id); assert(self.base()); assert(self.main_ok()); assert(self.extra_ok(buffer_id as int)); assert forall|b: int| 0 <= b < self.buffer_extra@.len() && b != buffer_id implies self.extra_ok(b) by { assert(s0.extra_ok(b)); }
        assert forall|x: usize| s0.external_buffer_names@.contains(x) implies #[trigger] n.contains(x) by { let i = choose|i: int| 0 <= i < s0.external_buffer_names@.len() && s0.external_buffer_names@[i] == x; assert(n[i] == x); } }
%fn src/datamanager/tdata.rs TData::get_timestep_buffer
@ret r
@requires
    old(self).wf(), timestep < steps(old(self).file), old(self).external_buffer_names@.contains(external_buffer_id),
@ensures
    final(self).wf(), final(self).same_file(*old(self)), final(self).external_buffer_names == old(self).external_buffer_names, is_record(old(self).file, timestep as int, *r),
@closure 0
    |__p0: &usize| -> (b: bool) ensures b == (*__p0 == external_buffer_id)
@after buffer_id
    proof { assert(self.extra_ok(buffer_id as int)); }
