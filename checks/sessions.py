"""Programs for learning sessions, shared by C01 and C02."""
import os

MC_CFG = """SPECIFICATION Spec
CONSTANTS KeepOld = %(keep)s
 Keys = {"k1", "k2"}
 Depth = %(depth)d
 Generate = %(gen)s
 StartDir = %(dir)s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT VisibleIsTold\nINVARIANT DurableIsTold\nINVARIANT OneFilePerEntry\nPROPERTY OnlyTellChanges\n"

ARRAYS = ["arr_1_1", "arr_1_2", "arr_2_1", "arr_3_1", "arr_3_2", "arr_5_1", "arr_1x1_1", "arr_1x3_1", "arr_3x1_1",
          "arr_3x1_2", "arr_2x3_1", "arr_2x3_2", "arr_4x2_1", "arr_1x5_1", "ints_3_1", "ints_1_1", "list_1_1",
          "list_2_1", "list_4_1", "lol_2_1", "lol_1_1", "int_0", "int_3", "int_12",
          "arr_1500_1", "near_arr_1500_1", "near_arr_2x3_1", "near_arr_3_1"]
TABLES = ["tab_1", "tab_3", "tab_6", "near_tab_3", "tab_70", "near_tab_70"]
OBJECTS = ["obj_gauss1", "obj_gauss2", "obj_bound2", "obj_umean4", "obj_udecay3", "obj_uadapt2", "obj_task2",
           "obj_str1", "obj_str2", "obj_float1", "obj_dict2", "obj_cost2", "obj_npfloat1", "near_obj_gauss2"]
NAMES = ["samples", "costs", "cost_vars", "a", "b_c", "x", "eval", "task_solver"]
LABELS = [None, "eval", 0, 1, 2, 10, 999, 1000, "eval", 0, 1, "mean", "best_1", 12345]
UPDATES = [None, 0, 1, 2, 10, 11, 12345, 99999, 100000]


def mc(ctx):
    d = ctx.n(4, 6)
    for dr in ("TRUE", "FALSE"):
        ctx.mc("SessionMC", MC_CFG % dict(keep="FALSE", depth=50, gen="FALSE", dir=dr) + INV,
               what="every history over 2 entries and 4 values, any length")
    ctx.mc("SessionMC", MC_CFG % dict(keep="TRUE", depth=50, gen="FALSE", dir="TRUE") + "INVARIANT VisibleIsTold\n",
           expect_error="Invariant VisibleIsTold", what="mechanism that keeps files of other kinds")


def histories(ctx, start_dir, depth):
    """All histories of the model up to a depth, as programs."""
    hs = ctx.generate("SessionMC", MC_CFG % dict(keep="FALSE", depth=depth, gen="TRUE", dir=start_dir)
                      + "INVARIANT Emit\nCONSTRAINT Bound\n")
    return hs


VAL = {"a1": "arr_3x1_1", "a2": "arr_1_1", "t1": "tab_3", "o1": "obj_gauss2"}


def program_of(ctx, h, task, hasdir, entry):
    """Turn a model history into a program; entry maps k1, k2 to (name, update, sample)."""
    ops = []
    for c in h:
        if c[0] == "open":
            ops.append(["open", []])
        elif c[0] == "tell":
            ops.append(["tell", *entry[c[1]], VAL[c[2]]])
        elif c[0] == "ask":
            ops.append(["ask", *entry[c[1]]])
        else:
            ops.append([c[0]])
    for k in ("k1", "k2"):
        ops.append(["exists", *entry[k]])
        ops.append(["ask", *entry[k]])
    return dict(task=task, hasdir=hasdir, n=3, ops=ops, values=sorted(set(VAL.values())), dmps=[])


def some_key(r, names, np_ints):
    u, s = r.choice(UPDATES), r.choice(LABELS)
    if np_ints and isinstance(u, int) and r.random() < 0.5:
        u = ["np", u]
    if np_ints and isinstance(s, int) and r.random() < 0.5:
        s = ["np", s]
    return [r.choice(names), u, s]


def random_program(r, task, hasdir, length, reopen, dmp=False, saves=False):
    names = r.sample(NAMES, 3)
    keys = [some_key(r, names, True) for _ in range(5)]
    base = keys[0]  # neighbours of an entry: same name, other numbers
    keys += [[base[0], 1, None], [base[0], 11, None], [base[0], None, 1], [base[0], 1, 1], [base[0], None, None]]
    vals = r.sample(ARRAYS, 5) + r.sample(TABLES, 2) + r.sample(OBJECTS, 3)
    ops = [["open", [[n, r.choice(OBJECTS[:7])] for n in r.sample(["task", "updater", "distribution_initial"], r.randint(0, 2))]]]
    if not task and r.random() < 0.3:
        ops[0][1].append(["cost_function", "obj_cost2"])
    vals += [i for _, i in ops[0][1]]
    dmps = []
    for _ in range(length):
        x = r.random()
        k = r.choice(keys)
        if x < 0.33:
            ops.append(["tell", *k, r.choice([v for v in vals if v.startswith("dmp_")] if k in dmps else vals)])
        elif x < 0.58:
            ops.append(["ask", *k])
        elif x < 0.68:
            ops.append(["exists", *k])
        elif x < 0.78:
            ops.append(["mutate"])
        elif x < 0.86:
            u = r.choice([0, 1, 2, ["np", 1], ["np", 0], 11])
            v = [r.choice(vals) for _ in range(5)]
            if task and r.random() < 0.5:
                if r.random() < 0.5:
                    s = r.choice([0, 1, ["np", 0], ["np", 2], 10])
                    ops.append(["add_rollout", u, s, v[0], v[1], v[2]])
                    keys += [["sample", u, s], ["cost_vars", u, s], ["cost", u, s]]
                else:
                    ops.append(["add_eval_task", u, v[0], v[1], v[2]])
                    keys += [["cost", u, "eval"], ["cost_vars", u, "eval"], ["eval_sample", u, None]]
            elif r.random() < 0.5:
                ops.append(["add_eval", u, v[0], v[1]])
                keys += [["cost", u, "eval"], ["eval_sample", u, None]]
            else:
                ops.append(["add_update", u, *v[:4], v[4] if r.random() < 0.8 else None])
                keys += [["distribution", u, None], ["samples", u, None], ["costs", u, None], ["weights", u, None],
                         ["distribution_new", u, None]]
        elif x < 0.92 and task and dmp:
            k = ["dmp", r.choice([0, 3, 7]), r.choice([0, 1, "eval"])] if r.random() < 0.8 else ["dmp_initial", None, None]
            v = r.choice(["dmp_1_1", "dmp_2_2", "dmp_1_3"])
            vals.append(v)
            ops.append(["tell", *k, v])
            dmps.append(k)
            keys.append(k)
        elif reopen:
            ops.append(["reopen"])
        elif saves:
            ops.append(["save"])
        else:
            ops.append(["ask", *k])
    seen = []
    for k in keys:
        if k not in seen:
            seen.append(k)
    return dict(task=task, hasdir=hasdir, n=r.randint(1, 12), ops=ops, values=sorted(set(vals)), dmps=dmps), seen


def run_programs(ctx, programs, prefix, segmented):
    """Execute programs; at "reopen" and "save_all" a new process continues. Gives traces."""
    for i, p in enumerate(programs):
        p["dir"] = str(ctx.scratch / f"{prefix}{i}")
        os.makedirs(p["dir"], exist_ok=True) if p["hasdir"] else None
        p["segs"] = [[]]
        for o in p["ops"]:
            if segmented and o[0] == "reopen":
                p["segs"].append([])
            p["segs"][-1].append(o)
    events = [[] for _ in programs]
    dead = set()
    for s in range(max(len(p["segs"]) for p in programs)):
        todo = [i for i, p in enumerate(programs) if s < len(p["segs"]) and i not in dead]
        data = [dict({k: programs[i][k] for k in ("dir", "task", "hasdir", "n", "values")}, ops=programs[i]["segs"][s])
                for i in todo]
        out = ctx.drive("drv_session.py", data)
        for i, o in zip(todo, out):
            if o is None:
                dead.add(i)
                continue
            events[i] += o
            if len(o) < len(programs[i]["segs"][s]):
                dead.add(i)
    return [dict(name=f"{prefix}{i}", cfg=dict(hasdir=p["hasdir"], task=p["task"]), ev=e)
            for i, (p, e) in enumerate(zip(programs, events)) if e]
