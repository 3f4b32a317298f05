"""How much each check generates: PLAN[id][tier] = [(engine property, variant, cases, options)]."""
PLAN, FUZZ = {}, {}


def fun(pid, scale=1.0, extra=(), **kw):
    q = [(pid, "rel", int(400000 * scale)), (pid, "gcc", int(100000 * scale)), (pid, "asan", int(60000 * scale))] + list(extra)
    PLAN[pid] = dict(quick=q, thorough=[(p, v, n * 20, *o) for p, v, n, *o in q], **kw)
    FUZZ[pid] = 240


for i in "H01 H02 H03 H04 H06 H07 M01 M02 O03 O04 B02 B03 B04 F01 F03 E01 E02 U01 U02 U03".split():
    fun(i)
for i in "O01 O02".split():
    fun(i, 2.0)
fun("U04", 1.0)
LONG = dict(workers=1, first=1)
fun("B01", extra=[("B01long", "rel", 1, LONG)])
fun("F02", extra=[("F02long", "rel", 1, LONG)])
for i, q, w in (("B02", 5, 5), ("B04", 2, 1), ("F03", 2, 1), ("U01", 3, 2), ("U02", 2, 2), ("U03", 3, 1),
                ("M01", 2, 2), ("O01", 2, 2), ("F01", 2, 1), ("E01", 3, 2), ("E02", 3, 2)): # workers: objects need much memory
    PLAN[i]["quick"].append((i + "long", "rel", q, dict(workers=w, first=3)))
    PLAN[i]["thorough"] += [(i + "long", "rel", 2 * q, dict(workers=w, first=3)), (i + "long", "gcc", q, dict(workers=w, first=2))]
# A few huge inputs, and long lives of contexts and objects
for i in "H01 H02 H03 H04 H06 M01 M02 O01 O02 O03 O04 B01 B02 B03 B04 F01 F02 F03 E01 E02 U01 U02 U03".split():
    for t, k in (("quick", 1), ("thorough", 20)):
        PLAN[i][t] += [(i + "big", "rel", 96 * k), (i + "big", "gcc", 48 * k)]
for i in "H02 H04 M02 O03 O04 B04 F01 F03 E01 E02 U03".split():
    for t, k in (("quick", 1), ("thorough", 20)):
        PLAN[i][t] += [(i + "life", "rel", 240 * k), (i + "life", "gcc", 120 * k)]
PLAN["B05"] = dict(quick=[("B05", "rel", 20000), ("B05", "tsan", 20000), ("B05first", "rel", 4000), ("B05first", "tsan", 2000)], thorough=[("B05", "rel", 400000), ("B05", "tsan", 400000), ("B05first", "rel", 80000), ("B05first", "tsan", 40000)], threads=2)
PLAN["H05"] = dict(quick=[("H05", "rel", 59, dict(workers=59)), ("H05wrap", "wrap", 16, dict(workers=16, first=2)), ("H05round", "gcc", 16, dict(workers=16)), ("H05out", "rel", 4, dict(workers=2, first=3))],
                   thorough=[("H05", "rel", 191, dict(workers=191)), ("H05", "gcc", 59, dict(workers=59)), ("H05wrap", "wrap", 64, dict(workers=64)), ("H05round", "gcc", 48, dict(workers=48)), ("H05out", "rel", 16, dict(workers=2, first=3)), ("H05out", "gcc", 8, dict(workers=2, first=3))],
                   limit=dict(quick=600, thorough=6000))
PLAN["X01"] = dict(quick=[("X01", "rel", 250000), ("X01", "gcc", 100000), ("X01", "asan", 120000), ("X01big", "rel", 160), ("X01big", "gcc", 48), ("X01md5", "asan", 1)],
                   thorough=[("X01", "rel", 5000000), ("X01", "gcc", 2000000), ("X01", "asan", 2400000), ("X01big", "rel", 3200), ("X01big", "gcc", 960), ("X01big", "asan", 320), ("X01md5", "asan", 1)])
FUZZ["X01"] = 480
PLAN["X02"] = dict(quick=[("X02", "rel", 120000), ("X02", "gcc", 40000), ("X02", "tsan", 6000), ("X02first", "rel", 8000), ("X02first", "gcc", 2000), ("X02first", "tsan", 1600), ("X02int", "rel", 8000), ("X02int", "gcc", 4000)], thorough=[("X02", "rel", 2400000), ("X02", "gcc", 800000), ("X02", "tsan", 120000), ("X02first", "rel", 160000), ("X02first", "gcc", 40000), ("X02first", "tsan", 32000), ("X02int", "rel", 160000), ("X02int", "gcc", 80000), ("X02int", "debug", 40000)], threads=2)
PLAN["X03"] = dict(quick=[("X03", "rel", 300000), ("X03", "gcc", 300000)], thorough=[("X03", "rel", 6000000), ("X03", "gcc", 6000000)])
fun("A01", extra=[("A01life", "rel", 240), ("A01life", "gcc", 120), ("A01len", "rel", 16), ("A01len", "gcc", 16)])
PLAN["X04"] = dict(quick=[("X04", "rel", 480), ("X04", "gcc", 160)], thorough=[("X04", "rel", 9600), ("X04", "gcc", 3200)], kind="prog")
# The same guarantees, where the platform or the options of the build are others
q = [("H05m32", "m32", 20, dict(workers=20, first=4))]
for i in "H01 H02 H03 H04 H06 H07 M01 M02 O01 O02 O03 O04 B01 B02 B03 B04 F01 F02 F03 E01 E02 U01 U02 U03 U04 X01 X03 X07 X08 A01".split():
    q += [(i, "m32", 24000), (i, "arm", 12000), (i, "arm32", 12000), (i, "debug", 8000)]
for i in "H01 H02 H03 H04 H06 M01 M02 O01 O02 O03 O04 B01 B02 B03 B04 F01 F02 F03 E01 E02 U01 U02 U03 X01".split():
    q += [(i + "big", "m32", 24), (i + "big", "arm", 16)]
for i in "H02 H04 M02 O03 O04 B04 F01 F03 E01 E02 U03 A01".split():
    q += [(i + "life", "m32", 48)]
for i, n in (("B05", 800), ("B05first", 400), ("X02", 800), ("X02first", 400), ("X10", 800)):
    q += [(i, v, n) for v in ("m32", "arm", "arm32", "debug")]
PLAN["X05"] = dict(quick=q, thorough=[(p, v, n * 12, *o) if p != "H05m32" else (p, v, n, *o) for p, v, n, *o in q] + [("H05m32", "arm32", 20, dict(workers=20, first=4))],
                   limit=dict(quick=420, thorough=3600))
fun("X07", 0.5, extra=[("X07life", "rel", 240), ("X07life", "gcc", 120)])
fun("X08", 0.6)
fun("X09", 0.6, extra=[("X09late", "rel", 12000), ("X09late", "gcc", 8000), ("X09late", "asan", 3000)])
PLAN["X10"] = dict(quick=[("X10", "rel", 30000), ("X10", "gcc", 10000), ("X10", "tsan", 8000), ("X10first", "rel", 3000), ("X10first", "tsan", 1000)], thorough=[("X10", "rel", 600000), ("X10", "gcc", 200000), ("X10", "tsan", 160000), ("X10first", "rel", 60000), ("X10first", "gcc", 20000), ("X10first", "tsan", 20000)], threads=2)
PLAN["X06"] = dict(quick=[("X06", "cost", 24000)], thorough=[("X06", "cost", 480000)])
# tools/pbt_scripts.py: cases
for i, n in (("D01", 800), ("D02", 800), ("D03", 800)):
    PLAN[i] = dict(scripts=True, quick=n, thorough=30 * n)
PLAN["D04"] = dict(scripts=True, quick=80, thorough=1200)
