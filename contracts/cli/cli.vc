## the command-line tool (C17)
=== fn main
--- ensures
exists|c: Cli| cmdline(c) && #[trigger] accepts(c.input.content()), //@C17
=== fn abort
attr: verifier::exec_allows_no_decreases_clause
--- requires
is_rejection($1.shown()), //@C17
--- ensures
false, //@C17
--- start
let ghost id = $1.shown();
--- loop 0
invariant
    id == $1.shown(), is_rejection(id), printed(id),
    forall|j: int| 0 <= j < sources@.len() ==> nth_cause(id, j as nat) == Some(#[trigger] id_at(sources@, j)),
    match current { Some(c) => nth_cause(id, sources@.len()) == Some(c.shown()), None => nth_cause(id, sources@.len()) is None },
--- loop_start 0
let ghost before = sources@;
--- loop_end 0
assert forall|j: int| 0 <= j < before.len() implies #[trigger] id_at(sources@, j) == id_at(before, j) by {}
--- loop_after 0
proof { if sources@.len() == 0 { chain_done(id, 0); } }
--- loop 1
invariant
    $it.seq().len() == sources@.len(), forall|j: int| 0 <= j < sources@.len() ==> *(#[trigger] $it.seq()[j]) == sources@[j],
    $i <= sources@.len(), i__1 == $i,
    forall|j: int| 0 <= j < $i ==> printed(#[trigger] id_at(sources@, j)),
--- loop_start 1
let ghost at = $i;
--- loop_end 1
assert(printed(id_at(sources@, at as int)));
--- loop_after 1
proof {
    assert forall|j: nat| j < sources@.len() implies (#[trigger] nth_cause(id, j)) is Some && printed(nth_cause(id, j)->0) by {
        assert(printed(id_at(sources@, j as int)));
    }
    chain_done(id, sources@.len());
}
