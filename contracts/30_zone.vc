@file src/zoneinfo.rs
@prelude
use std::cmp::Ordering;
use vstd::prelude::*;
use crate::vspec::*;
use crate::vleap::*;
use crate::vshadow::{num_traits, num_integer, numcmp, zoneinfo_compiled};
use crate::vshadow::names::*;
use crate::vshadow::fsys::*;
use crate::vshadow::zoneinfo_compiled::*;
@drop_use std::path::PathBuf
@path_map std::fs::read ==> crate::vshadow::fsys::read
@path_map std::env::var ==> crate::vshadow::fsys::var
@path_map std::env::var_os ==> crate::vshadow::fsys::var_os
@path_map std::ffi::OsString ==> crate::vshadow::fsys::OsString
@fn tzdir() -> r : C16
ensures r.p() == tzdir_path()
@entry
string_from();
@fn load_zoneinfo(name) -> r : C16
requires zone_ok(zone_path(name@))
ensures r.leap_seconds@ == parsed(file_bytes(zone_path(name@)))
@fn ContinuousTimeSegment::end_day() -> r : C16 C09
requires seg_wf(*self)
ensures r == seg_end(*self)
@fn ContinuousTimeSegment::end_instant() -> r : C16 C08
requires seg_wf(*self)
ensures r.ticks == seg_end_s(*self)
@fn lookup_leap_second_segment_by_day(segments, day) -> r : C16 C02 C09
requires table_wf(segments@)
ensures match r {
    SegmentLookupResult::BeforeFirst(s) => look_before(segments@, *s) && day < 0
        && leaps_before(segments@, day as int) == 0 && leaps_before(segments@, day + 1) == 0,
    SegmentLookupResult::In(s) => look_in(segments@, *s) && s.start_day <= day < seg_end(*s)
        && leaps_before(segments@, day as int) == s.accumulated_leap_seconds
        && leaps_before(segments@, day + 1) == s.accumulated_leap_seconds + (if day + 1 == seg_end(*s) { s.leap_seconds as int } else { 0 }),
    SegmentLookupResult::AfterLast(s) => look_after(segments@, *s) && seg_end(*s) <= day
        && leaps_before(segments@, day as int) == s.accumulated_leap_seconds + s.leap_seconds
        && leaps_before(segments@, day + 1) == s.accumulated_leap_seconds + s.leap_seconds,
}
@entry
broadcast use group_look;
look_facts(segments@);
@closure 0 s: &ContinuousTimeSegment
o: Ordering => requires seg_wf(*s)
ensures o == (if day < s.start_day { Ordering::Greater } else if day < seg_end(*s) { Ordering::Equal } else { Ordering::Less })
@fn lookup_leap_second_segment_by_instant(segments, instant) -> r : C16 C08
requires table_wf(segments@), 1 <= S::TICKS_PER_SECOND <= T::hi()
ensures ({ let t = instant.ticks.v() / S::TICKS_PER_SECOND as int; match r {
    SegmentLookupResult::BeforeFirst(s) => look_before(segments@, *s) && t < 0,
    SegmentLookupResult::In(s) => look_in(segments@, *s) && s.start_instant.ticks <= t < seg_end_s(*s),
    SegmentLookupResult::AfterLast(s) => look_after(segments@, *s) && seg_end_s(*s) <= t,
} })
@entry
broadcast use group_prim_int;
look_facts(segments@);
crate::scale::scale_values();
vstd::arithmetic::div_mod::lemma_div_basics(S::TICKS_PER_SECOND as int);
@closure 0 s: &ContinuousTimeSegment
o: Ordering => requires seg_wf(*s)
ensures o == (if instant.ticks.v() < s.start_instant.ticks { Ordering::Greater } else if instant.ticks.v() < seg_end_s(*s) { Ordering::Equal } else { Ordering::Less })
@fn LeapSecondChronology::by_instant(instant) -> r : C16 C08
requires table_wf(self.0@), 1 <= S::TICKS_PER_SECOND <= T::hi()
ensures ({ let t = instant.ticks.v() / S::TICKS_PER_SECOND as int; match r {
    SegmentLookupResult::BeforeFirst(s) => look_before(self.0@, *s) && t < 0,
    SegmentLookupResult::In(s) => look_in(self.0@, *s) && s.start_instant.ticks <= t < seg_end_s(*s),
    SegmentLookupResult::AfterLast(s) => look_after(self.0@, *s) && seg_end_s(*s) <= t,
} })
@fn LeapSecondChronology::by_day(day) -> r : C16 C02 C09
requires table_wf(self.0@)
ensures match r {
    SegmentLookupResult::BeforeFirst(s) => look_before(self.0@, *s) && day < 0
        && leaps_before(self.0@, day as int) == 0 && leaps_before(self.0@, day + 1) == 0,
    SegmentLookupResult::In(s) => look_in(self.0@, *s) && s.start_day <= day < seg_end(*s)
        && leaps_before(self.0@, day as int) == s.accumulated_leap_seconds
        && leaps_before(self.0@, day + 1) == s.accumulated_leap_seconds + (if day + 1 == seg_end(*s) { s.leap_seconds as int } else { 0 }),
    SegmentLookupResult::AfterLast(s) => look_after(self.0@, *s) && seg_end(*s) <= day
        && leaps_before(self.0@, day as int) == s.accumulated_leap_seconds + s.leap_seconds
        && leaps_before(self.0@, day + 1) == s.accumulated_leap_seconds + s.leap_seconds,
}
@fn load_leap_segments() -> r : C16
ensures system_table(r@)
@entry
broadcast use table_of_wf;
system_file();
@loop 0
it => invariant
    it.seq().len() == tz.leap_seconds@.len(),
    forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == tz.leap_seconds@[i],
    tz.leap_seconds@ == system_leaps(), leap_file_wf(system_leaps()),
    0 <= it.index@ <= it.seq().len(),
    segments@.len() == it.index@,
    it.index@ < it.seq().len() ==> entry_wf(system_leaps(), it.index@ as int),
    iu32(start_day) == prev_day(system_leaps(), it.index@ as int),
    ii32(previous_leap_second_total) == prev_count(system_leaps(), it.index@ as int),
    start_instant.ticks == 86400 * iu32(start_day) + ii32(previous_leap_second_total),
    forall|i: int| 0 <= i < segments@.len() ==> seg_of(system_leaps(), i, #[trigger] segments@[i]),
@loop_index 0
invariant
    tz.leap_seconds@ == system_leaps(), leap_file_wf(system_leaps()),
    0 <= vx_i <= tz.leap_seconds@.len(),
    segments@.len() == vx_i,
    vx_i < tz.leap_seconds@.len() ==> entry_wf(system_leaps(), vx_i),
    iu32(start_day) == prev_day(system_leaps(), vx_i),
    ii32(previous_leap_second_total) == prev_count(system_leaps(), vx_i),
    start_instant.ticks == 86400 * iu32(start_day) + ii32(previous_leap_second_total),
    forall|i: int| 0 <= i < segments@.len() ==> seg_of(system_leaps(), i, #[trigger] segments@[i]),
@drop LeapSecondChronology::load
@fn get_leap_second_adjustment_for_unix_timestamp(unix_timestamp) -> r : C17
ensures exists|t: Seq<ContinuousTimeSegment>| #[trigger] system_table(t) && r == leaps_before(t, unix_timestamp as int / 86400)
@entry
system_file();
broadcast use group_look;
