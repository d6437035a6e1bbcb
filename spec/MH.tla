--------------------------------- MODULE MH ---------------------------------
(* A Metropolis-Hastings chain: proposals from the current state, accepted  *)
(* by the rule, burn-in once per start, a sample every Steps moves.         *)
EXTENDS MHProps
CONSTANTS Burn, Steps, Deltas, Us, Kind, MaxProposals, MaxResets, Starts
VARIABLES cur, start, left, since, samples, moves, script, resets
vars == <<cur, start, left, since, samples, moves, script, resets>>
Cfg == [tkind |-> Kind, mid |-> <<"0.0">>, half |-> <<"1.0">>, shift |-> "0.0", tscale |-> "1.0", lo |-> <<"-1.0">>,
        hi |-> <<"1.0">>, pmean |-> <<"0.1">>, pcov |-> <<<<"0.25">>>>]
Init == /\ \E s \in Starts : cur = Clip(Cfg, <<s>>) /\ start = cur
        /\ left = Burn /\ since = 0 /\ samples = <<>> /\ moves = 0 /\ script = <<>> /\ resets = 0
Propose(d, u) ==
  LET y == Proposed(Cfg, cur, <<d>>) IN
  /\ Len(script) < MaxProposals
  /\ script' = Append(script, [d |-> d, u |-> u])
  /\ UNCHANGED <<resets, start>>
  /\ IF ~Accepts(Cfg, cur, y, u) THEN UNCHANGED <<cur, left, since, samples, moves>>
     ELSE /\ cur' = y /\ moves' = moves + 1
          /\ IF left > 0 THEN left' = left - 1 /\ UNCHANGED <<since, samples>>
             ELSE /\ left' = 0
                  /\ IF since + 1 = Steps THEN since' = 0 /\ samples' = Append(samples, y)
                     ELSE since' = since + 1 /\ UNCHANGED samples
Reset == /\ resets < MaxResets /\ moves > 0 /\ resets' = resets + 1
         /\ \E s \in Starts : cur' = Clip(Cfg, <<s>>)
         /\ start' = cur' /\ left' = Burn /\ since' = 0 /\ samples' = <<>> /\ moves' = 0 /\ script' = <<>>
Next == Reset \/ \E d \in Deltas, u \in Us : Propose(d, u)
Spec == Init /\ [][Next]_vars
Ds == [i \in DOMAIN script |-> <<script[i].d>>]
UsOf == [i \in DOMAIN script |-> script[i].u]
InSpace == VLe(Cfg.lo, cur) /\ VLe(cur, Cfg.hi)
BurnOnce == moves = (Burn - left) + Steps * Len(samples) + since
\* the chain run move by move is the chain the properties describe
SamplesAreTheWalk == LET acc == Walk(Cfg, start, Ds, UsOf) IN
  /\ Len(acc) = moves /\ (moves > 0 => cur = acc[moves])
  /\ samples = IF moves < Burn THEN <<>> ELSE Picked(acc, Burn, Steps)
\* moving up is always accepted when the proposal is symmetric about its mean shift in that direction
Uphill == [][moves' = moves + 1 => RLt(RLn(script'[Len(script')].u), Alpha(Cfg, cur, cur'))]_vars
=============================================================================
