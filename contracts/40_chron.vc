@file src/iso8601/mod.rs
@drop mod util
@prelude
use vstd::prelude::*;
@file src/iso8601/precision.rs
@prelude
use vstd::prelude::*;
@rank_enum Precision
@append
verus!{
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Precision {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(crate::vspec::icmp(rank_precision(*self), rank_precision(*o))) }
}
impl vstd::std_specs::cmp::OrdSpecImpl for Precision {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Self) -> std::cmp::Ordering { crate::vspec::icmp(rank_precision(*self), rank_precision(*o)) }
}
}
@end
@file src/iso8601/chronology.rs
@path_map std::sync::Arc ==> crate::vshadow::Arc
@prelude
use vstd::prelude::*;
use crate::vspec::*;
use crate::vleap::*;
use crate::vshadow::zoneinfo_compiled;
use crate::vshadow::Arc;
@drop_use std::sync::Arc
@fn Chronology::leap_seconds() -> r : C16
ensures r.0@ == ctable(*self)
@fn Chronology::new(shared_chronology) -> r : C16
ensures ctable(r) == shared_chronology.leap_seconds.0@
@fn PartialEq for Chronology::eq(other) -> r : C03
ensures *self == *other ==> r
@fn SharedChronology::leap_seconds() -> r : C16
ensures r.0@ == self.leap_seconds.0@
@fn load_chronology(time_zone) -> r : C16
requires zone_ok(zone_path(time_zone@))
ensures system_table(ctable(r))
@append
verus!{
/// not stated when two chronologies are equal, only that a chronology equals itself
impl vstd::std_specs::cmp::PartialEqSpecImpl for Chronology {
    open spec fn obeys_eq_spec() -> bool { false }
    uninterp spec fn eq_spec(&self, o: &Self) -> bool;
}
pub open spec fn ctable(c: Chronology) -> Seq<crate::zoneinfo::ContinuousTimeSegment> { c.pimpl.obj().leap_seconds.0@ }
}
@end
