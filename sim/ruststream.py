"""P29: streaming and editing in memory with the Rust library."""
from .cppdrv import row_text, u64
from .cppstream import P11
from .model import rand_field, rand_row
from .rustcheck import RustMixin


def edit_cmds(rng, schema, r, ri, bid, ids):
    """a vector or instance edited in memory, then set; the model follows what it contains"""
    st = schema.struct(r.types[0])
    vec = r.kind == "vector"
    pid = ids()
    o = ["pn %d %d %d" % (pid, bid, ri)]
    n = 0 if vec else 1
    for _ in range(rng.choice([0, 3, 8, 25])):
        x = rng.random()
        if vec and x < 0.42:
            if x < 0.22:
                o.append("pg %d %s" % (pid, row_text(rand_row(rng, st))))
                n += 1
            elif x < 0.32:
                o.append("pg %d" % pid)
                n += 1
            elif x < 0.35:
                n = rng.choice([0, 1, 2, 7, 300])
                o.append("pwl %d %d" % (pid, n))
            elif x < 0.37:
                n = 0
                o.append("pcl %d" % pid)
            else:
                o.append("prv %d %d" % (pid, rng.choice([0, n, n + 5])))
        elif n and x < 0.55:
            o.append("pat %d %d %d" % (pid, rng.randrange(n), rng.choice([0, 0, 1, 2])))
        elif n > 1 and x < 0.62:
            a, b = rng.sample(range(n), 2)
            o.append("pfi %d %d %d" % (pid, a, b))
        elif x < 0.9:
            i = rng.randrange(len(st.fields))
            o.append("pf %d %d %d" % (pid, i, u64(rand_field(rng, st.fields[i]))))
            if rng.random() < 0.3:
                o.append("pfr %d" % pid)
        else:
            o.append(rng.choice(["pfr %d", "psz %d", "pd %d"]) % pid)
    o.append("pd %d" % pid)
    if rng.random() < 0.2:
        q = ids()
        o.append("pcp %d %d" % (pid, q))
        o += ["pf %d 0 %d" % (q, u64(rand_field(rng, st.fields[0]))), "pd %d" % pid, "pd %d" % q]
    o.append("pset %d %d" % (pid, bid))
    return o


class P29(RustMixin, P11):
    prop = "P29"
    editor = staticmethod(edit_cmds)
    bits = True
    stores = ["fc", "fc", "fc", "fc", "mem"]
    rule = ("one run = one seeded history of calls on the real Rust streams, vectors and instances - several resources interleaved, fields assigned in any order and repeatedly, "
            "vectors edited in memory, some streams crossing the 32 MB buffers - on file or in-memory storage, with the disk accepting any part of each write; "
            "every run counts as non-trivial")
