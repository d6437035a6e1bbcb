"""Writes the "fixed" list of known_findings.json from the fix commits of /repo (property per commit below)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OF = [("default support of normal and exponential", "D08"), ("ellipsoid to nearly degenerate points", "C14"), ("moved to a rejected point when the time ran out", "C12"), ("burn in and every sample the time of the whole", "C17"), ("every replacement the time of the whole", "C17"),
      ("ignored the time limit of a request", "C17"), ("ran out of time before their first sample", "C17"),
      ("returned overlapping slices", "C08"), ("documented ess_target=None", "C10"), ("find() restarted", "C09"), ("np.int was removed", "C01"),
      ("evaluations of the root sample", "C03"), ("density scaling of the leaf size", "C08"), ("normalized by different totals", "C08"),
      ("already normalized and unnormalized", "C08"), ("NESS of an always empty", "C15"), ("statistics crashed or reported a sample", "C01"),
      ("requested total instead of the proposals", "C03"), ("returned n*n samples", "C12"), ("kept the chain state", "C04"),
      ("fix: nested sampling retries", "C05"), ("multi nested sampling retries", "C05"), ("kept the ellipsoids", "C04"), ("never counted the proposal", "C03"),
      ("proposal mass of the parent", "C11"), ("could start outside", "C05"), ("less samples than requested", "C02"), ("exponential density was only", "D02"),
      ("Maxwell log-density", "D02"), ("Laplace density was not", "D01"), ("covered [-0.5, 1.5]", "D02"), ("delta distribution integral", "D06"),
      ("ABC distribution could not", "D05"), ("no valid weight", "D03"), ("kept line behind", "U01"), ("KL divergence of disjoint", "M01"),
      ("JS divergence of disjoint", "M01"), ("fix: KL divergence modified", "M01"), ("value of the previous run after a reset", "M02"),
      ("expected value error modified", "M03"), ("redrawn points and axes", "V01"), ("kernel density could not", "D06"), ("nearest neighbor distribution used", "D07"), ("nearest neighbor draws", "D07"), ("nearest neighbor evaluation", "D07"),
      ("single sample per iteration lost", "C01"), ("half refined tree", "C16"), ("first retired live point", "C14"), ("no sample of an iteration", "C06"),
      ("given weights instead of the normalised", "D03"), ("crashed on empty batches", "D01"), ("outside of the support was not zero", "D06"),
      ("could not be loaded from a configuration", "B04"), ("to_dict crashed", "B04"), ("ticks of an axis", "V01"), ("forgets the target", "C04"),
      ("two dimensional densities could not be drawn", "V02"), ("mixture samplers could not be drawn", "V02"), ("limits of whichever axes", "V02"),
      ("replaced the value it was conditioned on", "V02"), ("ABC distributions could not be drawn", "V02")]
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
gone = {s[len('Revert "'):-1] for _, s in log if s.startswith("Revert")}
out = []
for h, s in log:
    if not s.startswith("fix:") or s in gone:
        continue
    p = [q for k, q in OF if k in s]
    assert len(p) == 1, (s, p)
    out.append("fixed: property=%s %s %s" % (p[0], h, s.replace("fix: ", "")))
f = os.path.join(V, "known_findings.json")
d = json.load(open(f))
d["fixed"] = out
json.dump(d, open(f, "w"), indent=1)
print(len(out))
