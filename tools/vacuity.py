#!/usr/bin/env python3
"""Corrupts recorded events in one field and asks the specification to judge
them.  Lists, per kind of event and field, how many corruptions were accepted.
Fields which are inputs may be accepted; an output never should be.
usage: vacuity.py C03 [corruptions per field]"""
import copy, os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build, check, props, tlc
from collections import Counter, defaultdict

def mutate(v, r):
    if isinstance(v, bool): return not v
    if isinstance(v, int): return v + 1 if v < 255 and r.random() < .5 or v <= 0 else v - 1
    if isinstance(v, str): return v + "x"
    if isinstance(v, dict):
        if not v: return {"zz": 1}
        k = r.choice(sorted(v)); return dict(v, **{k: mutate(v[k], r)})
    if isinstance(v, list):
        if not v: return None
        if isinstance(v[0], int) and r.random() < .15: return v[:-1]
        i = r.randrange(len(v)); return v[:i] + [mutate(v[i], r)] + v[i+1:]
    return None

def main():
    pid, per = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 4
    fn, level, ass = props.PROPS[pid]
    c = check.Check(pid, "quick", 1)
    r = random.Random(7)
    fn(c); c.record()
    tot, acc, exs = Counter(), Counter(), {}
    groups = [kg for kg in sorted(c.groups.items()) if kg[0][0] not in build.REAL]
    for (pset, ov, g), ss in r.sample(groups, min(3, len(groups))):
        for s in ss:
            if s.events is not None: s.freeze()
        muts, tags = [], []
        for s in r.sample(ss, min(len(ss), 4)):
            if s.weight > 1e5: continue
            s.thaw(c)
            by = defaultdict(list)
            for i, e in enumerate(s.events): by[e["e"]].append(i)
            for kind, ids in by.items():
                for i in r.sample(ids, 1):
                    ev = s.events[i]
                    for f in sorted(ev):
                        if f in ("e", "be"): continue
                        for _ in range(per):
                            m = mutate(ev[f], r)
                            if m is None: continue
                            t = check.Session(c, pset, s.backends)
                            t.events = copy.deepcopy(s.events[:i]) + [dict(ev, **{f: m})]
                            muts.append(t.freeze()); tags.append((kind, f, i, m, ev[f]))
        if not muts: continue
        # a corruption may make the evaluation itself fail: small runs, judged again without it
        from concurrent.futures import ThreadPoolExecutor
        def chunk(live):
            out = {}
            while live:
                try:
                    rej, x = tlc.check_trace(c.module, c.accept, build.spec_params(pset), [muts[i] for i in live], ov, 1, "2g", remember=c.remember)
                except tlc.ModelError as e:
                    print("  model error", [tags[i][:2] for i in live], str(e)[-300:])
                    return out
                if len(rej) == 1 and x["distinct"] == 1:
                    i = live[rej[0][0]]
                    out[i] = True
                    live = [k for k in live if k != i]
                    continue
                res = {live[a]: b for a, b in rej}
                for i in live:
                    out[i] = i in res
                    if i in res and res[i] != tags[i][2]: print("  rejected earlier:", tags[i][:3], res[i])
                return out
            return out
        with ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
            for out in ex.map(chunk, [list(range(len(muts)))[a:a+12] for a in range(0, len(muts), 12)]):
                for i, rejected in out.items():
                    tot[tags[i][:2]] += 1
                    if not rejected:
                        acc[tags[i][:2]] += 1
                        ex_ = (pset, tags[i][2], str(tags[i][3])[:100], str(tags[i][4])[:100])
                        exs.setdefault(tags[i][:2], ex_)
    for k in sorted(tot):
        print(f"{pid} {k[0]:12s} {k[1]:8s} accepted {acc[k]} of {tot[k]}" + (f"   e.g. {exs[k]}" if acc[k] else ""))

main()
