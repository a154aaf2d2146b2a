#!/usr/bin/env python3
"""Writes the scenarios of the known findings (findings/*.json), except the
feed race, which was found by search."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def doc(n, v, **p): return dict(id="00000000-0000-4000-8000-%012d" % n, p=p, vec=[v, 1 - v, 0.5, 0.25, 0.1, 0.3])
def sc(prop, *phases, **k):
    return dict(k, prop=prop, seed=0, kind="server", sched=dict(seed=1, policy=0, period=0, limit=0, tick=1000), lat_min_us=0, lat_max_us=0, no_vectorizer=True, phases=list(phases))
def ph(*ops, **k): return dict(clients=[list(ops)], audit=False, **k)
def create(c, *idx): return dict(k="create", c=c, idx=[list(i) for i in idx])
def add(c, *d): return dict(k="add", c=c, docs=list(d), vp=["title"])
def get(c, p, v): return dict(k="get", c=c, p=p, v=v)
def put(name, s): json.dump(s, open(H + "/findings/" + name + ".json", "w"), indent=1)
put("split-character", sc("C01", ph(create("books", ("title", "string")), add("books", doc(1, 0.1, title="été"), doc(2, 0.2, title="ère")),
   get("books", "title", "été"), get("books", "title", "ère"))))
put("shared-value", sc("C16", ph(create("books", ("genre", "string")), add("books", doc(1, 0.1, genre="poetry"), doc(2, 0.2, genre="poetry")),
   get("books", "genre", "poetry"), add("books", doc(2, 0.3, genre="prose")), get("books", "id", doc(1, 0)["id"]), get("books", "genre", "poetry"))))
n = [doc(i, i / 40, title="t%d" % i) for i in range(1, 16)]
put("name-prefix", sc("C06", ph(create("c"), create("c1"), add("c1", *[doc(100 + i, i / 40, title="u%d" % i) for i in range(1, 6)]), add("c", *n), end="restart"),
   ph(get("c1", "id", doc(101, 0)["id"]), dict(k="near", c="c1", q=[0.1, 0.9, 0.5, 0.25, 0.1, 0.3], d=2.5, n=10), add("c1", doc(200, 0.5, title="v")))))
put("half-stored", sc("C08", ph(create("books", ("title", "string")), add("books", doc(1, 0.1, title="one"))),
   ph(add("books", doc(2, 0.2, title="two")), faults=[dict(call="write", nth=6, count=1, kind="err")]),
   ph(add("books", doc(2, 0.2, title="two")))))
put("value-prefix", sc("C16", ph(create("books", ("title", "string")), add("books", doc(1, 0.1, title="ab"), doc(2, 0.2, title="abc")),
   add("books", doc(2, 0.2, title="xyz")), add("books", doc(1, 0.1, title="new")), get("books", "id", doc(1, 0)["id"]))))
s = sc("C08", ph(create("books", ("title", "string")), add("books", doc(1, 0.1, title="dune"), doc(2, 0.2, title="dune messiah"))),
   ph(add("books", doc(3, 0.3, title="dune")), faults=[dict(call="write", nth=4, count=1, kind="err")]),
   ph(get("books", "id", doc(1, 0)["id"]), get("books", "title", "dune")))
s["sched"]["seed"] = 10  # the order in which the indexes of a document are written
put("hidden-value", s)
half = lambda op, call, nth, *more: sc("C11", ph(*more), ph(op, faults=[dict(call=call, nth=nth, count=1, kind="err")]), ph(dict(k="delete", c="books"), create("books", ("title", "string"))), strict="half")
put("half-created", half(create("books", ("title", "string")), "write", 1, create("other")))
put("half-deleted", half(dict(k="delete", c="books"), "getblob", 1, create("books", ("title", "string")), add("books", doc(1, 0.1, title="one"))))
