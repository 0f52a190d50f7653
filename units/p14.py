import re
import csv
import datetime
import io
import random

from pyvc.driver import unit
from units import sim

F = "prosimos.file_manager:FileManager."
E = "prosimos.simulation_engine:SimBPMEnv."
ENG = "prosimos.simulation_engine:"
FIXED = ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"]


class Writer:
    """stands for the csv writer: what has been written so far"""


def rows(c, name):
    return c.list(name, c.Int, g=lambda r: [r.randint(0, 9) for _ in range(r.choice([0, 0, 1, 2, 5]))])


def manager(c, out=True):
    """a log file in the middle of a run: some rows written, fewer than a chunk kept"""
    fm = c.mod("file_manager")
    w = None
    if out:
        w = c.obj(Writer, out=rows(c, "written"))
        c.patch(Writer, "writerow", lambda self, r: self.out.append(r))
        c.patch(Writer, "writerows", lambda self, rs: self.out.extend(rs))
    size = c.int("chunk size", 1, g=lambda r: r.randint(1, 6))
    buf = rows(c, "kept")
    c.assume(c.len(buf) < size)
    return w, c.obj(fm.FileManager, chunk_size=size, file_writter=w, data_buffer=buf, has_batch=False), size


def same(c, before1, before2, added, after1, after2):
    """what is written and kept is what was written and kept, then the added row"""
    n1, n2, m1, m2 = c.len(before1), c.len(before2), c.len(after1), c.len(after2)
    at = lambda a, n, i: 0 if isinstance(n, int) and n == 0 else c.at(a, i)  # nothing to look at in an empty list
    all_at = lambda a, n, b, i: c.ite(i < n, lambda: at(a, n, i), lambda: at(b, c.len(b), i - n))
    k = 0 if added is None else 1
    return c.and_(c.eq(m1 + m2, n1 + n2 + k), c.forall(0, n1 + n2, lambda i: c.eq(all_at(before1, n1, before2, i), all_at(after1, m1, after2, i))),
                  added is None or c.eq(all_at(after1, m1, after2, n1 + n2), added))


@unit("P14.row_added", [F + "add_csv_row", F + "force_write"])
def row_added(c):
    """any file, any chunk size, any number of rows so far"""
    w, f, size = manager(c)
    b1, b2, row = c.old(w.out), c.old(f.data_buffer), c.int("row", 0, 9)
    c.call(f.add_csv_row, row)
    c.check("every row once, in order", same(c, b1, b2, row, w.out, f.data_buffer))
    c.check("less than a chunk is kept", c.len(f.data_buffer) < size)
    c.check("what is written stays", c.and_(c.len(w.out) >= c.len(b1)))


@unit("P14.flushed", F + "force_write")
def flushed(c):
    w, f, size = manager(c)
    b1, b2 = c.old(w.out), c.old(f.data_buffer)
    c.call(f.force_write)
    c.check("every row once, in order", same(c, b1, b2, None, w.out, f.data_buffer))
    c.check("nothing is kept", c.eq(c.len(f.data_buffer), 0))
    again = c.old(w.out)
    c.call(f.force_write)
    c.check("nothing is written twice", c.and_(c.eq(c.len(w.out), c.len(again)), same(c, again, c.mklist([]), None, w.out, f.data_buffer)))


@unit("P14.no_file", [F + "add_csv_row", F + "force_write"])
def no_file(c):
    _, f, size = manager(c, False)
    n = c.len(f.data_buffer)
    c.call(f.add_csv_row, c.int("row"))
    c.check("nothing is kept", c.eq(c.len(f.data_buffer), n))
    c.call(f.force_write)
    c.check("nothing to write to", c.eq(c.len(f.data_buffer), n))


@unit("P14.header", [F + "__init__", F + "_add_header_row"])
def header(c):
    fm = c.mod("file_manager")
    out = []
    w = c.obj(Writer)
    c.patch(Writer, "writerow", lambda self, r: out.append(r))
    c.patch(Writer, "writerows", lambda self, r: out.extend(r))
    cols = c.list("columns", c.Str, g=lambda r: [r.choice(["a", "b", "batch_id"]) for _ in range(r.randint(0, 3))])
    was = c.old(cols)
    size = c.int("chunk size", 1)
    f = c.call(fm.FileManager, size, w, cols)
    c.check("one header row", len(out) == 1)
    h = out[0]
    c.check("the fixed columns, then the additional ones", c.and_(c.eq(c.len(h), 6 + c.len(was)), *[c.eq(c.at(h, i), x) for i, x in enumerate(FIXED)] + [
        c.forall(0, c.len(was), lambda i: c.eq(c.at(h, 6 + i), c.at(was, i)))]))
    c.check("nothing kept yet", c.and_(c.eq(c.len(f.data_buffer), 0), c.eq(f.chunk_size, size)))
    c.check("the columns are not changed", c.and_(c.eq(c.len(cols), c.len(was)), c.forall(0, c.len(was), lambda i: c.eq(c.at(cols, i), c.at(was, i)))))
    c.check("batch column", c.iff(f.has_batch, c.exists(0, c.len(was), lambda i: c.eq(c.at(was, i), "batch_id"))))


def moment(r):
    tz = r.choice([datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(hours=-3))])
    d = datetime.datetime(2022, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), tzinfo=tz)
    return d.replace(microsecond=r.choice([0, 0, 1, 999999, 500000, r.randint(0, 999999)]))


@unit("P14.format", [ENG + "verify_miliseconds", ENG + "_get_string_from_datetime"], bounded="random instants with microseconds, three time zones")
def format_(c):
    """what the csv module writes for the three timestamps"""
    se = c.mod("simulation_engine")
    ts = [c.dt("t%d" % i, g=moment) for i in range(3)]
    out = c.call(se.verify_miliseconds, ["7", "A", ts[0], ts[1], ts[2], "R"])
    f = io.StringIO()
    csv.writer(f).writerow(out)
    c.check("uniform, with microseconds", f.getvalue().strip().split(",") == ["7", "A"] + [t.isoformat(sep=" ", timespec="microseconds") for t in ts] + ["R"])
    c.check("no instant is changed", all(datetime.datetime.fromisoformat(str(x)) == t for x, t in zip(out[2:5], ts)))


@unit("P14.row", [E + "__init__", E + "get_csv_row_data", ENG + "verify_miliseconds", F + "__init__"], max_paths=12000,
      scope="at most 3 additional columns; the conversion of an instant to text is checked by P14.format")
def row(c):
    """header and row describe the same columns"""
    se, ei, ss, cf, aa = c.mod("simulation_engine"), c.mod("execution_info"), c.mod("simulation_setup"), c.mod("control_flow_manager"), c.mod("all_attributes")
    fm, st, pr, qs = c.mod("file_manager"), c.mod("simulation_stats_calculator"), c.mod("prioritisation"), c.mod("simulation_queues_ds")
    cols = ["a", "b", "k"][:c.choice("columns", [0, 1, 2, 3])]
    batches = c.choice("batching", ["none", "empty", "some"] if len(cols) < 2 else ["empty", "some"])
    out = []
    w = c.obj(Writer)
    c.patch(Writer, "writerow", lambda self, r: out.append(r))
    c.patch(aa.AllAttributes, "get_all_columns_generated", lambda self: c.mklist(list(cols)))
    c.patch(st, "LogInfo", lambda s: None)
    c.patch(se, "LogInfo", lambda s: None)
    c.patch(se, "CasePrioritisation", lambda *a: c.obj(pr.CasePrioritisation, all_case_attributes=c.mkdict({})))
    names = {"t1": c.str("name 1"), "t2": c.str("name 2")}
    g = c.obj(cf.BPMNGraph, element_info=c.mkdict({k: c.obj(cf.ElementInfo, id=k, name=v) for k, v in names.items()}), all_attributes=None)
    prof = {k: c.obj(c.mod("resource_profile").ResourceProfile, resource_name=c.str("resource %s" % k)) for k in ("r1", "r2")}
    s = c.obj(ss.SimDiffSetup, all_attributes=c.obj(aa.AllAttributes, global_attribute_initial_values=c.mkdict({})), task_resource=c.mkdict({}),
              batch_processing={"none": None, "empty": c.mkdict({}), "some": c.mkdict({"t1": 1})}[batches],
              resources_map=c.mkdict({}), start_datetime=None, total_num_cases=1, case_attributes=None, prioritisation_rules=None, bpmn_graph=g)
    env = c.call(se.SimBPMEnv, s, None, w)
    s.resources_map = c.mkdict(prof)
    c.check("the log has one header", len(out) == 1)
    head = list(out[0])
    c.check("columns", head == FIXED + list(cols) + (["batch_id"] if batches == "some" else []))
    case = c.int("case", 0)
    vals = {}
    for x in cols:
        k = c.choice("value of %s" % x, ["number", "none", "missing"])
        if k != "missing":
            vals[x] = c.real(x) if k == "number" else None
    vals["other"] = 3
    asked = []
    c.patch(cf.BPMNGraph, "get_all_attributes", lambda self, p: asked.append(p) or c.mkdict(dict(vals)))
    t, r = c.choice("task and resource", [("t1", "r1"), ("t2", "r2"), ("t1", "no")])
    kind = c.choice("whole seconds", [True, False])
    ts = []
    for i in range(3):
        d = datetime.datetime(2022, 3, 4, 5 + i, 6, 7, 0 if kind else 250000, tzinfo=datetime.timezone.utc)
        ts.append(d)
    evt = c.obj(ei.TaskEvent, p_case=case, task_id=t, enabled_datetime=ts[0], started_datetime=ts[1], completed_datetime=ts[2],
                batch_id=c.choice("batch", ["b1", None]))
    if r != "no":
        evt.resource_id = r
    got = c.call(env.get_csv_row_data, evt)
    got = list(got)
    c.check("as many fields as the header", len(got) == len(head))
    c.check("attribute values of this case", asked and c.and_(*[c.eq(a, case) for a in asked]))
    c.check("case, activity and resource", c.and_(c.eq(got[0], case), c.eq(got[1], names[t]), c.eq(got[5], prof[r].resource_name) if r != "no" else got[5] == "No assigned resource"))
    c.check("timestamps in order", all(datetime.datetime.fromisoformat(str(x)) == d for x, d in zip(got[2:5], ts)))
    for i, x in enumerate(cols):
        v = vals.get(x)
        c.check("value of its column or blank", c.eq(got[6 + i], v) if v is not None else got[6 + i] == "")
    if batches == "some":
        c.check("batch identifier last", got[-1] == str(evt.batch_id))


@unit("P14.recorded", [E + "execute_event", E + "_update_logs_and_resource_availability"])
def recorded(c):
    """one row per executed item, after its attributes are updated"""
    se, ei, ss, fm, st, qs = (c.mod(x) for x in ("simulation_engine", "execution_info", "simulation_setup", "file_manager", "simulation_stats_calculator", "simulation_queues_ds"))
    rp, cf = c.mod("resource_profile"), c.mod("control_flow_manager")
    log = []
    c.patch(st.LogInfo, "add_event_info", lambda self, k, e, cost: log.append(("stats", k, e)))
    c.patch(fm.FileManager, "add_csv_row", lambda self, x: log.append(("row", x)))
    c.patch(se.SimBPMEnv, "get_csv_row_data", lambda self, e: log.append(("data", e)) or ("data of", e))
    c.patch(se.SimBPMEnv, "update_attributes", lambda self, e: log.append(("attributes", e.p_case, e.task_id)))
    c.patch(qs.DiffResourceQueue, "update_resource_availability", lambda self, r, t: log.append(("free", r, t)))
    c.patch(ss.SimDiffSetup, "next_resting_time", lambda self, r, d: 5)
    logs_events = c.bool("events are logged")
    start = c.dt("start", g=lambda r: datetime.datetime(2022, 1, 3, tzinfo=datetime.timezone.utc))
    s = c.obj(ss.SimDiffSetup, is_event_added_to_log=logs_events, start_datetime=start,
              resources_map=c.mkdict({"r1": c.obj(rp.ResourceProfile, cost_per_hour=1)}))
    env = c.obj(se.SimBPMEnv, sim_setup=s, log_info=c.obj(st.LogInfo), log_writer=c.obj(fm.FileManager), resource_queue=c.obj(qs.DiffResourceQueue),
                sim_resources=c.mkdict({"r1": c.obj(se.SimResource, switching_time=c.choice("switching", [0, 2]))}))
    at = c.real("at", 0, g=lambda r: r.choice([0, 10, 3600.5]))
    dur = c.real("duration", 0, g=lambda r: r.choice([0, 10, 3600.5]))
    if c.choice("executed", ["event", "batch item"]) == "event":
        evt = c.obj(ei.EnabledEvent, p_case=3, task_id="e1", enabled_at=at, enabled_datetime=start + c.delta(at), duration_sec=dur, batch_info_exec=None, is_inter_event=True)
        done, when = c.call(env.execute_event, evt)
        n = len([1 for x in log if x[0] == "row"])
        c.check("one row iff events are logged", c.and_(c.iff(logs_events, n == 1), n <= 1))
        c.check("ends after its duration", c.and_(c.eq(done, at + dur), c.eq(c.seconds(when - start), done)))
    else:
        evt = c.obj(ei.TaskEvent, p_case=3, task_id="t1", resource_id="r1", completed_at=at, completed_datetime=start + c.delta(at))
        done, when = c.call(env._update_logs_and_resource_availability, evt, "r1", dur)
        c.check("one row, after the attributes of the activity were updated", [x[0] for x in log if x[0] in ("row", "attributes")] == ["attributes", "row"]
                and [x for x in log if x[0] == "attributes"] == [("attributes", 3, "t1")])
        c.check("its completion", c.and_(c.eq(done, at), c.eq(c.seconds(when - start), at)))
    for x in log:
        if x[0] == "row":
            c.check("the data of the executed item", x[1][0] == "data of" and x[1][1].p_case == 3 and x[1][1].task_id == evt.task_id)
        if x[0] == "stats":
            c.check("counted for its case", x[1] == 3)
    c.check("counted once", len([1 for x in log if x[0] == "stats"]) == 1)


@unit("P14.end", ENG + "run_simpy_simulation", scope="every combination of output files and given arrival times")
def end(c):
    """when the run is over nothing is left in the buffer"""
    se, st, fm, ss, cf = (c.mod(x) for x in ("simulation_engine", "simulation_stats_calculator", "file_manager", "simulation_setup", "control_flow_manager"))
    w = c.obj(Writer, out=c.mklist([]))
    c.patch(Writer, "writerow", lambda self, r: self.out.append(r))
    c.patch(Writer, "writerows", lambda self, rs: self.out.extend(rs))
    has = c.choice("log file", [True, False])
    stats = c.choice("statistics file", [True, False])
    given = c.choice("arrivals given", [True, False])
    kept = rows(c, "kept")
    was = c.old(kept)
    m = c.obj(fm.FileManager, chunk_size=100000, file_writter=w if has else None, data_buffer=kept, has_batch=False)
    log = []

    class Issues:
        def find_issues(self):
            return []
    info = c.obj(st.LogInfo)
    c.patch(st.LogInfo, "compute_process_kpi", lambda self, e: log.append("kpi") or "kpi")
    c.patch(st.LogInfo, "save_joint_statistics", lambda self, e: log.append("stats"))
    setup = c.obj(ss.SimDiffSetup, bpmn_graph=c.obj(cf.BPMNGraph, simulation_execution_stats=Issues()))
    env = c.obj(se.SimBPMEnv, log_writer=m, log_info=info, sim_setup=setup)
    c.patch(se, "SimBPMEnv", lambda s, a, b: log.append((a, b)) or env)
    c.patch(se, "execute_full_process", lambda e, f: log.append("run"))
    sw = c.obj(Writer) if stats else None
    r = c.call(se.run_simpy_simulation, setup, sw, w if has else None, c.mklist([0, 5]) if given else None)
    c.check("run once", len([1 for x in log if x == "run"]) == 1)
    if has:
        c.check("every row is written", c.and_(c.eq(c.len(w.out), c.len(was)), c.forall(0, c.len(was), lambda i: c.eq(c.at(w.out, i), c.at(was, i)))))
    else:
        c.check("nothing is written", c.eq(c.len(w.out), 0))
    if stats and not given:
        c.check("statistics once", log.count("stats") == 1)


@unit("P14.simulated", [E + "get_csv_row_data", F + "force_write", "prosimos.simulation_engine:run_simulation"],
      bounded="whole simulations of random models")
def simulated(c):
    """the file holds a header and one complete row per executed activity, events only when asked for"""
    r = sim.Run(c, attributes=c.rng.random() < 0.5).go()
    c.check("one header", r.header == ["case_id", "activity", "enable_time", "start_time", "end_time", "resource"] + sorted(r.attrs))
    stamp = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}[+-]\d\d:\d\d$")
    for x in r.raw[1:]:
        c.check("every row is complete", len(x) == len(r.header))
        c.check("timestamps in one format", all(stamp.match(x[k]) for k in (2, 3, 4)))
        c.check("attributes have a value", all(v != "" for v in x))
    names = set(r.m.names[t] for t in r.m.tasks) | (set(r.m.names[e] for e in r.m.timers) if r.log_events else set())
    c.check("activities under their names, events only when asked for", all(x["activity"] in names for x in r.rows))
    c.check("events have no resource, tasks have one", all(
        (x["resource"] == "No assigned resource") == (x["id"] in r.m.timers) for x in r.rows))
    for i in range(r.n):
        sim.holds(c, "one row per executed activity", r.follow(i, min(x["enable_time"] for x in r.case(i))))
