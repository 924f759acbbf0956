%import chain.vc
%import idline.vc
%fn src/converter.rs csv_multi_converter
@requires
    bytes(delimiter@).len() > 0, bytes(comment@).len() > 0, interpolate ==> vel,
    mode@ == "chain"@ ==> ({ let m = lines_of(filename@, header, delimiter@, comment@);
       &&& 1 <= m.dimv().0 < 200000 && columns@.len() <= 7
       &&& forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1
       &&& columns@.len() > 0 ==> forall|i: int| 0 <= i < m.dimv().0 ==> !fnan(#[trigger] m@[(i, columns@[0] as int)])
       &&& vel ==> windows_ok(m, columns@, interpolate) }),
    mode@ == "id_line"@ ==> ({ let m = lines_of(filename@, header, delimiter@, comment@);
       &&& 1 <= m.dimv().0 < 0x8000_0000
       &&& forall|i: int| 0 <= i < columns@.len() ==> 0 <= #[trigger] columns@[i] < m.dimv().1
       &&& columns@.len() > 0 ==> forall|i: int| 0 <= i < m.dimv().0 ==> !fnan(#[trigger] m@[(i, columns@[0] as int)])
       &&& vel ==> id_windows_ok(m, columns@, interpolate)
       &&& vel ==> forall|a: Array2<F>, x: usize| #[trigger] wide(m, columns@, a) && #[trigger] rows_with(a, x, a.dimv().0).len() > 0 ==> rows_with(a, x, a.dimv().0).len() >= 9 }),
@ensures
    there(filename@),
    mode@ == "chain"@ ==> (columns@.len() > 0) && (exists|f: File, a: Array2<F>, ts: Seq<Array2<F>>| #[trigger] created_as(f, outname@) && #[trigger] chain(lines_of(filename@, header, delimiter@, comment@), columns@, interpolate, vel, a, ts)
        && #[trigger] all_converted(f, ts, radius, false) && acceptable(ts)),
    mode@ == "id_line"@ ==> (columns@.len() == 5 || columns@.len() == 8) && (exists|f: File, a: Array2<F>, v: Seq<usize>, end: F, most: int, ts: Seq<Array2<F>>| #[trigger] created_as(f, outname@) && #[trigger] by_id(lines_of(filename@, header, delimiter@, comment@), columns@, interpolate, vel, a, v, end, most, ts)
        && #[trigger] all_converted(f, ts, radius, true) && acceptable(ts)),
@panic 0
    assert(!there(filename@));
@entry
    proof { reveal_strlit("chain"); reveal_strlit("id_line"); assert("chain"@.len() != "id_line"@.len()); }
