---------------------------- MODULE BudgetProps -----------------------------
(* C17.  What a time budget means for a request.                            *)
EXTENDS Naturals, Sequences
\* a request ends because the total is reached or because the time is over
ReachedOrSpent(held, n, now, deadline) == held >= n \/ now >= deadline
\* the most target evaluations one iteration of a method makes, given what it holds (p: its parameters, D: dimension,
\* n: requested total, held: samples held before the request, made: evaluations made before the time was over)
Pow2(D) == IF D = 1 THEN 2 ELSE IF D = 2 THEN 4 ELSE 8
OneIteration(method, p, D, n, held, made) ==
  CASE method = "dm" -> p.N * p.K
    [] method = "lais" -> p.N * p.K + 2 * p.N * p.L
    [] method = "mpmc" -> p.K
    [] method = "mh" -> 2 * (p.n_burnin + p.n_steps + 2)
    [] method = "rej" -> IF n > held THEN n - held ELSE 0
    [] method = "nested" -> (IF n > held THEN n - held ELSE 0) + p.N     \* the points still due are taken as they come
    [] method = "multi" -> (IF n > held THEN n - held ELSE 0) + 2 * p.N
    [] method = "hid" -> 1 + made
    [] method = "tp" -> made + 2 * Pow2(D) + 2 * (IF p.simple THEN p.parallel ELSE IF n > held THEN n - held ELSE 0)   \* all leaves may be sampled again
=============================================================================
