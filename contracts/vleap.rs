// Specification: physical time, i.e. what the leap-second table says about days and seconds.
#![allow(unused)]
use vstd::prelude::*;
// ---------------------------------------------------------------- leap seconds
use crate::zoneinfo::ContinuousTimeSegment;
use crate::vshadow::zoneinfo_compiled::{LeapSecond as FileLeap, parsed, parse_ok};
use crate::vshadow::fsys::*;
verus! {
pub open spec fn seg_end(s: ContinuousTimeSegment) -> int { s.start_day + s.duration_days }
/// physical seconds from the epoch to the end of the segment
pub open spec fn seg_end_s(s: ContinuousTimeSegment) -> int {
    s.start_instant.ticks + 86400 * s.duration_days + s.leap_seconds
}
/// leap seconds inserted before day d: those of the first n segments that end by then
pub open spec fn lb(t: Seq<ContinuousTimeSegment>, n: nat, d: int) -> int
    decreases n
{
    if n == 0 || n > t.len() { 0 }
    else { lb(t, (n - 1) as nat, d) + (if seg_end(t[n - 1]) <= d { t[n - 1].leap_seconds as int } else { 0 }) }
}
pub open spec fn leaps_before(t: Seq<ContinuousTimeSegment>, d: int) -> int { lb(t, t.len(), d) }
/// physical seconds from the epoch to midnight of day d, and the length of that day
pub open spec fn day_start(t: Seq<ContinuousTimeSegment>, d: int) -> int { 86400 * d + leaps_before(t, d) }
pub open spec fn day_len(t: Seq<ContinuousTimeSegment>, d: int) -> int { 86400 + leaps_before(t, d + 1) - leaps_before(t, d) }

pub open spec fn seg_wf(s: ContinuousTimeSegment) -> bool {
    1 <= s.duration_days && -1 <= s.leap_seconds <= 1
    && s.start_instant.ticks == 86400 * s.start_day + s.accumulated_leap_seconds
    && -1000 <= s.accumulated_leap_seconds <= 1000
    && 86400 * (s.start_day + s.duration_days) + s.accumulated_leap_seconds + s.leap_seconds <= i32::MAX
}
/// segment i follows on from the one before it
pub open spec fn seg_next(t: Seq<ContinuousTimeSegment>, i: int) -> bool {
    t[i].start_day == seg_end(t[i - 1])
    && t[i].accumulated_leap_seconds == t[i - 1].accumulated_leap_seconds + t[i - 1].leap_seconds
}
#[verifier::opaque]
pub open spec fn table_wf(t: Seq<ContinuousTimeSegment>) -> bool {
    1 <= t.len()
    && t[0].start_day == 0 && t[0].accumulated_leap_seconds == 0
    && (forall|i: int| 0 <= i < t.len() ==> seg_wf(#[trigger] t[i]))
    && (forall|i: int| 1 <= i < t.len() ==> #[trigger] seg_next(t, i))
}
pub proof fn seg_mono(t: Seq<ContinuousTimeSegment>, i: int, j: int)
    requires table_wf(t), 0 <= i < j < t.len()
    ensures seg_end(t[i]) <= t[j].start_day, seg_end_s(t[i]) <= t[j].start_instant.ticks
    decreases j - i
{
    reveal(table_wf);
    assert(seg_wf(t[i]) && seg_wf(t[j]) && seg_wf(t[j - 1]));
    assert(seg_next(t, j));
    if i < j - 1 { seg_mono(t, i, j - 1); }
}
pub proof fn lb_after(t: Seq<ContinuousTimeSegment>, n: nat, d: int)
    requires table_wf(t), 1 <= n <= t.len(), seg_end(t[n - 1]) <= d
    ensures lb(t, n, d) == t[n - 1].accumulated_leap_seconds + t[n - 1].leap_seconds
    decreases n
{
    reveal(table_wf);
    assert(seg_wf(t[n - 1]));
    if n > 1 {
        assert(seg_next(t, n - 1));
        lb_after(t, (n - 1) as nat, d);
    } else {
        assert(lb(t, 0, d) == 0);
    }
}
pub proof fn lb_in(t: Seq<ContinuousTimeSegment>, i: int, n: nat, d: int)
    requires table_wf(t), 0 <= i < n <= t.len(), t[i].start_day <= d < seg_end(t[i])
    ensures lb(t, n, d) == t[i].accumulated_leap_seconds
    decreases n
{
    reveal(table_wf);
    if n == i + 1 {
        if i > 0 { assert(seg_next(t, i)); lb_after(t, i as nat, d); } else { assert(lb(t, 0, d) == 0); }
    } else {
        seg_mono(t, i, n - 1);
        assert(seg_wf(t[n - 1]));
        lb_in(t, i, (n - 1) as nat, d);
    }
}
pub proof fn lb_before(t: Seq<ContinuousTimeSegment>, n: nat, d: int)
    requires table_wf(t), n <= t.len(), d <= 0
    ensures lb(t, n, d) == 0
    decreases n
{
    reveal(table_wf);
    if n > 0 {
        assert(seg_wf(t[n - 1]));
        lb_before(t, (n - 1) as nat, d);
    }
}
/// the leap seconds before the days of a segment, and before the day after it
pub proof fn leaps_in(t: Seq<ContinuousTimeSegment>, i: int, d: int)
    requires table_wf(t), 0 <= i < t.len(), t[i].start_day <= d <= seg_end(t[i])
    ensures leaps_before(t, d) == t[i].accumulated_leap_seconds + (if d == seg_end(t[i]) { t[i].leap_seconds as int } else { 0 })
{
    reveal(table_wf);
    assert(seg_wf(t[i]));
    if d < seg_end(t[i]) { lb_in(t, i, t.len(), d); }
    else if i + 1 < t.len() {
        assert(seg_next(t, i + 1)); assert(seg_wf(t[i + 1]));
        lb_in(t, i + 1, t.len(), d);
    } else { lb_after(t, t.len(), d); }
}
/// everything a lookup by day tells about the day it looked up
pub open spec fn seg_in(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment) -> bool {
    exists|i: int| 0 <= i < t.len() && #[trigger] t[i] == s
}
#[verifier::opaque]
pub open spec fn look_in(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment) -> bool {
    seg_wf(s) && seg_in(t, s)
    && (forall|d: int| s.start_day <= d <= seg_end(s) ==> #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + (if d == seg_end(s) { s.leap_seconds as int } else { 0 }))
}
#[verifier::opaque]
pub open spec fn look_before(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment) -> bool {
    seg_wf(s) && s == t[0] && s.start_day == 0 && s.start_instant.ticks == 0
    && (forall|d: int| d <= 0 ==> #[trigger] leaps_before(t, d) == 0)
}
#[verifier::opaque]
pub open spec fn look_after(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment) -> bool {
    seg_wf(s) && s == t.last()
    && (forall|d: int| d >= seg_end(s) ==> #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + s.leap_seconds)
}
pub proof fn look_facts(t: Seq<ContinuousTimeSegment>)
    ensures table_wf(t) ==> (forall|i: int| 0 <= i < t.len() ==> look_in(t, #[trigger] t[i]))
        && (forall|i: int| 0 <= i < t.len() ==> seg_wf(#[trigger] t[i]))
        && 1 <= t.len() && t[0].start_day == 0 && t[0].start_instant.ticks == 0
        && look_before(t, t[0]) && look_after(t, t.last())
        && (forall|i: int, j: int| 0 <= i < j < t.len() ==> seg_end(#[trigger] t[i]) <= (#[trigger] t[j]).start_day && seg_end_s(t[i]) <= t[j].start_instant.ticks
            && (j == i + 1 ==> seg_end(t[i]) == t[j].start_day && seg_end_s(t[i]) == t[j].start_instant.ticks))
{
    reveal(table_wf); reveal(look_in); reveal(look_before); reveal(look_after);
    if table_wf(t) {
        assert forall|i: int| 0 <= i < t.len() implies look_in(t, #[trigger] t[i]) by {
            let s = t[i];
            assert forall|d: int| s.start_day <= d <= seg_end(s) implies #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + (if d == seg_end(s) { s.leap_seconds as int } else { 0 }) by { leaps_in(t, i, d); }
        }
        assert(seg_wf(t[0]));
        assert forall|d: int| d <= 0 implies #[trigger] leaps_before(t, d) == 0 by { lb_before(t, t.len(), d); }
        assert(seg_wf(t.last()));
        let s = t.last();
        assert forall|d: int| d >= seg_end(s) implies #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + s.leap_seconds by { lb_after(t, t.len(), d); }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies seg_end(#[trigger] t[i]) <= (#[trigger] t[j]).start_day && seg_end_s(t[i]) <= t[j].start_instant.ticks
            && (j == i + 1 ==> seg_end(t[i]) == t[j].start_day && seg_end_s(t[i]) == t[j].start_instant.ticks) by { seg_mono(t, i, j); if j == i + 1 { assert(seg_next(t, j)); } }
    }
}

pub open spec fn iu32(x: u32) -> int { x as int }
pub open spec fn ii32(x: i32) -> int { x as int }
/// what the lookups reveal
pub proof fn look_in_facts(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment)
    ensures look_in(t, s) ==> seg_wf(s) && (forall|d: int| s.start_day <= d <= seg_end(s) ==> #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + (if d == seg_end(s) { s.leap_seconds as int } else { 0 }))
{ reveal(look_in); }
pub broadcast proof fn bc_look_in(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment)
    requires #[trigger] look_in(t, s)
    ensures seg_wf(s)
{ reveal(look_in); }
pub broadcast proof fn bc_look_in_d(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment, d: int)
    requires #[trigger] look_in(t, s), s.start_day <= d <= seg_end(s)
    ensures #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + (if d == seg_end(s) { s.leap_seconds as int } else { 0 })
{ reveal(look_in); }
pub broadcast proof fn bc_look_before(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment)
    requires #[trigger] look_before(t, s)
    ensures seg_wf(s) && s.start_day == 0 && s.start_instant.ticks == 0
{ reveal(look_before); }
pub broadcast proof fn bc_look_before_d(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment, d: int)
    requires #[trigger] look_before(t, s), d <= 0
    ensures #[trigger] leaps_before(t, d) == 0
{ reveal(look_before); }
pub broadcast proof fn bc_look_after(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment)
    requires #[trigger] look_after(t, s)
    ensures seg_wf(s)
{ reveal(look_after); }
pub broadcast proof fn bc_look_after_d(t: Seq<ContinuousTimeSegment>, s: ContinuousTimeSegment, d: int)
    requires #[trigger] look_after(t, s), d >= seg_end(s)
    ensures #[trigger] leaps_before(t, d) == s.accumulated_leap_seconds + s.leap_seconds
{ reveal(look_after); }
pub broadcast proof fn bc_neg(t: Seq<ContinuousTimeSegment>, d: int)
    requires #[trigger] table_wf(t), d <= 0
    ensures #[trigger] leaps_before(t, d) == 0
{ lb_before(t, t.len(), d); }
pub proof fn lb_step(t: Seq<ContinuousTimeSegment>, n: nat, d: int)
    requires table_wf(t), n <= t.len()
    ensures -1 <= lb(t, n, d + 1) - lb(t, n, d) <= 1
    decreases n
{
    if n > 0 {
        reveal(table_wf);
        assert(seg_wf(t[n - 1]));
        if seg_end(t[n - 1]) == d + 1 {
            if n > 1 {
                seg_mono(t, n - 2, n - 1);
                lb_after(t, (n - 1) as nat, d);
                lb_after(t, (n - 1) as nat, d + 1);
            } else {
                assert(lb(t, 0, d) == 0 && lb(t, 0, d + 1) == 0);
            }
        } else {
            lb_step(t, (n - 1) as nat, d);
        }
    }
}
/// days are 86399, 86400 or 86401 seconds long
pub broadcast proof fn bc_day_len(t: Seq<ContinuousTimeSegment>, d: int)
    requires table_wf(t)
    ensures 86399 <= #[trigger] day_len(t, d) <= 86401
{ lb_step(t, t.len(), d); }
pub proof fn lb_bound(t: Seq<ContinuousTimeSegment>, n: nat, d: int)
    requires table_wf(t), n <= t.len()
    ensures -1001 <= lb(t, n, d) <= 1001
    decreases n
{
    if n > 0 {
        reveal(table_wf);
        assert(seg_wf(t[n - 1]));
        if seg_end(t[n - 1]) <= d { lb_after(t, n, d); } else { lb_bound(t, (n - 1) as nat, d); }
    }
}
pub broadcast proof fn bc_leaps_bound(t: Seq<ContinuousTimeSegment>, d: int)
    requires #[trigger] table_wf(t)
    ensures -1001 <= #[trigger] leaps_before(t, d) <= 1001
{ lb_bound(t, t.len(), d); }
/// days follow on from each other
pub proof fn day_start_mono(t: Seq<ContinuousTimeSegment>, a: int, b: int)
    requires table_wf(t)
    ensures a < b ==> day_start(t, a) + day_len(t, a) <= day_start(t, b)
    decreases b - a
{
    if a < b {
        bc_day_len(t, b - 1);
        if a < b - 1 { day_start_mono(t, a, b - 1); }
    }
}
pub proof fn lb_same(t1: Seq<ContinuousTimeSegment>, t2: Seq<ContinuousTimeSegment>, l: Seq<FileLeap>, n: nat, d: int)
    requires table_of(t1, l), table_of(t2, l), n <= l.len()
    ensures lb(t1, n, d) == lb(t2, n, d)
    decreases n
{
    if n > 0 {
        assert(seg_of(l, n - 1, t1[n - 1]) && seg_of(l, n - 1, t2[n - 1]));
        lb_same(t1, t2, l, (n - 1) as nat, d);
    }
}
/// the system's table is determined by the file
pub broadcast proof fn sys_unique(t1: Seq<ContinuousTimeSegment>, t2: Seq<ContinuousTimeSegment>, d: int)
    requires #[trigger] system_table(t1), #[trigger] system_table(t2)
    ensures #[trigger] leaps_before(t1, d) == leaps_before(t2, d)
{ lb_same(t1, t2, system_leaps(), t1.len(), d); }
pub broadcast group group_look { bc_neg, bc_day_len, bc_leaps_bound, bc_look_in, bc_look_in_d, bc_look_before, bc_look_before_d, bc_look_after, bc_look_after_d }
pub broadcast proof fn table_of_wf(t: Seq<ContinuousTimeSegment>, l: Seq<FileLeap>)
    requires #[trigger] leap_file_wf(l), table_of(t, l)
    ensures #[trigger] table_wf(t)
{
    reveal(table_wf);
    assert forall|i: int| 1 <= i < t.len() implies #[trigger] seg_next(t, i) by { assert(seg_of(l, i - 1, t[i - 1]) && seg_of(l, i, t[i])); }
    assert(seg_of(l, 0, t[0]));
}
// what the zoneinfo file lists: the i-th leap second is inserted at the end of the day before day
// file_day(i), its timestamp counting the leap seconds inserted before it
pub open spec fn prev_count(l: Seq<FileLeap>, i: int) -> int { if i == 0 { 0 } else { l[i - 1].leap_second_count as int } }
pub open spec fn file_day(l: Seq<FileLeap>, i: int) -> int { (l[i].timestamp - prev_count(l, i)) / 86400 }
pub open spec fn prev_day(l: Seq<FileLeap>, i: int) -> int { if i == 0 { 0 } else { file_day(l, i - 1) } }
/// the i-th entry is sensible: its day lies after the one before it, one second is inserted or deleted
pub open spec fn entry_wf(l: Seq<FileLeap>, i: int) -> bool {
    l[i].timestamp == 86400 * file_day(l, i) + prev_count(l, i)
    && prev_day(l, i) < file_day(l, i)
    && 0 <= prev_day(l, i) && 0 <= prev_count(l, i) <= 1000
    && 0 <= l[i].leap_second_count <= 1000 && -1 <= l[i].leap_second_count - prev_count(l, i) <= 1
    && 86400 * file_day(l, i) + l[i].leap_second_count <= i32::MAX
}
pub open spec fn leap_file_wf(l: Seq<FileLeap>) -> bool {
    1 <= l.len() && (forall|i: int| 0 <= i < l.len() ==> #[trigger] entry_wf(l, i))
}
/// a segment says what the i-th entry says
pub open spec fn seg_of(l: Seq<FileLeap>, i: int, s: ContinuousTimeSegment) -> bool {
    seg_wf(s)
    && s.start_day == prev_day(l, i) && seg_end(s) == file_day(l, i)
    && s.leap_seconds == l[i].leap_second_count - prev_count(l, i)
    && s.accumulated_leap_seconds == prev_count(l, i)
}
/// the table says what the file says
pub open spec fn table_of(t: Seq<ContinuousTimeSegment>, l: Seq<FileLeap>) -> bool {
    t.len() == l.len() && (forall|i: int| 0 <= i < t.len() ==> seg_of(l, i, #[trigger] t[i]))
}
/// the file of a zone: right/<name> under $TZDIR, or under /usr/share/zoneinfo
pub open spec fn zone_path(name: Seq<char>) -> Seq<char> { path_join(path_join(tzdir_path(), "right"@), name) }
pub open spec fn zone_ok(path: Seq<char>) -> bool { file_readable(path) && parse_ok(file_bytes(path)) }
pub open spec fn system_path() -> Seq<char> { path_join(tzdir_path(), "right/UTC"@) }
/// the leap seconds of the installed zoneinfo database
pub open spec fn system_leaps() -> Seq<FileLeap> { parsed(file_bytes(system_path())) }
/// two ways to name the file
pub proof fn same_path()
    ensures zone_path("UTC"@) == system_path()
{
    reveal_strlit("right"); reveal_strlit("UTC"); reveal_strlit("right/UTC");
    let d = tzdir_path();
    assert(zone_path("UTC"@) =~= system_path());
}
/// The environment: the file is there, it parses and lists sensible leap seconds. (Checked against
/// the real file and the real parser by the native part of C16.)
#[verifier::external_body]
pub proof fn system_file_assumed()
    ensures zone_ok(system_path()) && leap_file_wf(system_leaps())
{ }
pub proof fn system_file()
    ensures zone_ok(system_path()) && leap_file_wf(system_leaps()) && zone_path("UTC"@) == system_path()
{ system_file_assumed(); same_path(); }
pub open spec fn system_table(t: Seq<ContinuousTimeSegment>) -> bool { table_wf(t) && table_of(t, system_leaps()) }
}
