---------------------------- MODULE SamplerProps ----------------------------
(* The properties of a sampler's life (C01, C02, C03, C05) as operators on  *)
(* before/after states.  Sampler.tla checks them on the specification's     *)
(* own transitions, TraceSampler.tla on the recorded ones.                  *)
EXTENDS Naturals, Sequences, FiniteSets

IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Range(s) == {s[i] : i \in 1..Len(s)}
\* a request for r samples reaches the total
Reached(new, r) == Len(new) >= r
\* a flat history only grows at its end
PrefixKept(old, new) == IsPrefix(old, new)
\* region methods may reorder but keep every sample
SetKept(old, new) == Range(old) \subseteq Range(new)
\* a request that is already satisfied changes nothing
Untouched(old, new, r) == Len(old) >= r => new = old
CountsMatch(reported, done) == reported = done
\* densities of the proposal looked up by one request: none where proposals are uniform by construction, one mixture value
\* per sample weighed (and one per component where the components are adapted by it), elsewhere one per target density
Looked(method, nprop, grown, evals) ==
  CASE method \in {"nested", "multi"} -> 0
    [] method \in {"dm", "lais"} -> grown
    [] method = "mpmc" -> grown * (1 + nprop)
    [] OTHER -> evals
NeverDecrease(old, new) == new >= old

=============================================================================
