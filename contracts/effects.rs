/// What the statement writes.
pub open spec fn stmt_ms(a: FlowAnalysis, s: Statement, loc: Location) -> Lst<Mutation> {
  let ev = ModularMutationVisitor::ev_visit_statement(a.place_info, s, loc);
  if ev.s.len() > 0 { ev.s[0].1 } else { Lst::new() }
}
pub open spec fn rows_after(a: FlowAnalysis, st: Matrix<Place>, ms: Lst<Mutation>, loc: Location, fin: Matrix<Place>) -> bool {
  forall|k: Place, l: Loa| #[trigger] fin.has(k, l) <==> after(a, st, ms, loc, ms.len(), k, l)
}
@fn FlowAnalysis::apply_primary_statement_effect
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, state: mut fin: Matrix<Place>, statement: Statement, location: Location
uses: ModularMutationVisitor_visit_assign_ax
ensures effect: rows_after(self, state, stmt_ms(self, statement, location), location, fin)
loop 0
  inv: $IT == ModularMutationVisitor::ev_visit_statement(self.place_info, statement, location),
    $I == 0 ==> V(state) == state,
    $I > 0 ==> rows_after(self, state, $IT.s[0].1, location, V(state)),
@end

pub open spec fn recurse_mode() -> bool { active_mode() is Some && active_mode()->Some_0.context_mode is Recurse }
/// What the terminator writes.
pub open spec fn term_ms(a: FlowAnalysis, t: Terminator, loc: Location) -> Lst<Mutation> {
  let ev = ModularMutationVisitor::ev_visit_terminator(a.place_info, t, loc);
  if t.kind is Call && recurse_mode() && inlined(a, t.kind) is Some { inlined(a, t.kind)->Some_0 }
  else if ev.s.len() > 0 { ev.s[0].1 } else { Lst::new() }
}
@fn FlowAnalysis::apply_primary_terminator_effect
file: crates/flowistry/src/infoflow/analysis.rs
params: self: FlowAnalysis, state: mut fin: Matrix<Place>, terminator: Terminator, location: Location
ret: out: Edges
uses: ModularMutationVisitor_visit_terminator_ax, inlined_ax
ensures effect: rows_after(self, state, term_ms(self, terminator, location), location, fin)
ensures edges: out == terminator.edges()
loop 0
  inv: $IT == ModularMutationVisitor::ev_visit_terminator(self.place_info, terminator, location),
    $I == 0 ==> V(state) == state,
    $I > 0 ==> rows_after(self, state, $IT.s[0].1, location, V(state)),
@end
