/// Time: a duration is its seconds and nanoseconds, an instant is opaque.
#[derive(Copy, Clone)]
pub struct Duration { pub secs: u64, pub nanos: u32 }
impl Duration {
    #[verifier::external_body]
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { unimplemented!() }
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r == (Duration { secs: s, nanos: 0 }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.secs == 0 && self.nanos == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) { unimplemented!() }
}
impl Default for Duration {
    open spec fn dflt(r: Duration) -> bool { r == (Duration { secs: 0, nanos: 0 }) }
    fn vx_default() -> Duration { Duration { secs: 0, nanos: 0 } }
}
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Instant { }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> Duration { unimplemented!() }
}
pub open spec fn shorter(a: Duration, b: Duration) -> bool { a.secs < b.secs || a.secs == b.secs && a.nanos < b.nanos }
impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Duration) -> bool { *self == *o }
}
impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
        Some(if *self == *o { core::cmp::Ordering::Equal } else if shorter(*self, *o) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater })
    }
}
impl Eq for Duration { }
pub trait VxOrd: Sized {
    spec fn below(self, o: Self) -> bool;
    fn min(self, o: Self) -> (r: Self) ensures r == (if o.below(self) { o } else { self });
    fn max(self, o: Self) -> (r: Self) ensures r == (if o.below(self) { self } else { o });
}
impl VxOrd for Duration {
    open spec fn below(self, o: Duration) -> bool { shorter(self, o) }
    #[verifier::external_body]
    fn min(self, o: Duration) -> Duration { unimplemented!() }
    #[verifier::external_body]
    fn max(self, o: Duration) -> Duration { unimplemented!() }
}
