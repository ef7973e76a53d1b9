// ---- events as queue entries: a fill or removal event and the entry holding it have the same bytes ------
pub uninterp spec fn any_fill(f: FillEvent) -> AnyEvent;
pub uninterp spec fn any_out(o: OutEvent) -> AnyEvent;
pub trait VxEvent: Sized { spec fn any(self) -> AnyEvent; spec fn of(e: AnyEvent) -> Self; }
impl VxEvent for FillEvent { open spec fn any(self) -> AnyEvent { any_fill(self) } open spec fn of(e: AnyEvent) -> Self { as_fill(e) } }
impl VxEvent for OutEvent { open spec fn any(self) -> AnyEvent { any_out(self) } open spec fn of(e: AnyEvent) -> Self { as_out(e) } }
#[verifier::external_body]
pub fn vx_evcast<E: VxEvent>(e: E) -> (r: AnyEvent) ensures r == e.any() { unimplemented!() }
//@rw vx_cast($x) => vx_evcast($x)
pub uninterp spec fn as_fill(e: AnyEvent) -> FillEvent;
pub uninterp spec fn as_out(e: AnyEvent) -> OutEvent;
pub axiom fn axiom_fill_entry(f: FillEvent) ensures as_fill(any_fill(f)) == f, any_fill(f).event_type == f.event_type;
pub axiom fn axiom_out_entry(o: OutEvent) ensures as_out(any_out(o)) == o, any_out(o).event_type == o.event_type;
#[verifier::external_body]
pub fn vx_evref<'a, E: VxEvent>(e: &'a AnyEvent) -> (r: &'a E) ensures *r == E::of(*e) { unimplemented!() }
