"""Judgements over what all workers of a check reported together."""
import math


def c03(emits, counts):
    out = []
    total = {}
    pi, si = [0, 0], [0, 0]
    un = []
    for e in emits:
        for i in (0, 1):
            pi[i] += e["pi"][i]
            si[i] += e["si"][i]
        un += e["un"]
        for k, (x, v, n) in e["tally"].items():
            a = total.setdefault(k, [0.0, 0.0, 0])
            a[0] += x
            a[1] += v
            a[2] += n
            if v > 25 and abs(x) / math.sqrt(v) > 7.0:
                out.append("statistics of one run (case %s): %s is off by %.1f standard deviations over %d steps" % (
                    e["seed"], k, x / math.sqrt(v), n))
    zs = {}
    for k, (x, v, n) in sorted(total.items()):
        if v > 25:
            zs[k] = round(x / math.sqrt(v), 2)
            if abs(zs[k]) > 6.0:
                out.append("statistics: %s is off by %.1f standard deviations over %d steps" % (k, zs[k], n))
    for name, (good, n) in (("process", pi), ("site", si)):
        if n > 1000 and good > 0.8 * n and good < n:
            out.append("%d of %d choices of the %s do not follow from the draw that decides the others: %s" % (n - good, n, name, un[:2]))
    return out, {"z_scores": zs, "process_choices_explained_by_draw": pi, "site_choices_explained_by_draw": si}
