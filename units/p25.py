"""P25: the commands do what their options say"""
from pyvc.driver import unit

M = "cli.diff_res_bpsim:"


def line(opts):
    out = []
    for k, v in opts:
        out += ["--" + k, str(v)]
    return out


@unit("P25.simulate", M + "start_simulation", scope="each option given or not, in any of the usual forms")
def simulate(c):
    """the model, the scenario, the number of cases, the files, the start and whether events are logged reach the simulation as given"""
    m = c.mod("cli.diff_res_bpsim")
    ran = []
    c.patch(m, "run_simulation", lambda *a, **k: ran.append((a, k)))
    c.patch(m, "preprocess_xes_log", lambda *a, **k: ran.append(("discovery",)))
    n = c.choice("cases", [1, 20, 1000])
    stat, log = c.choice("statistics", [None, "s.csv"]), c.choice("log", [None, "l.csv"])
    start = c.choice("start", [None, "2022-06-21T13:22:30.035185+03:00"])
    events = c.choice("events", [None, "True", "False", "true", "false", "0", "1"])
    args = [("bpmn_path", "m.bpmn"), ("json_path", "p.json"), ("total_cases", n)]
    args += [(k, v) for k, v in (("stat_out_path", stat), ("log_out_path", log), ("starting_at", start), ("is_event_added_to_log", events)) if v is not None]
    c.call(m.cli.main, ["start-simulation"] + line(args), standalone_mode=False)
    c.check("one simulation", len(ran) == 1)
    got = dict(zip(("bpmn_path", "json_path", "total_cases", "stat_out_path", "log_out_path", "starting_at", "is_event_added_to_log"), ran[0][0]))
    got.update(ran[0][1])
    c.check("of the given model, scenario and number of cases", (got["bpmn_path"], got["json_path"], got["total_cases"]) == ("m.bpmn", "p.json", n))
    c.check("into the given files", (got.get("stat_out_path"), got.get("log_out_path")) == (stat, log))
    c.check("from the given start", got.get("starting_at") == start)
    c.check("events are logged only if asked for", bool(got.get("is_event_added_to_log")) == (events in ("True", "true", "1")))


@unit("P25.discover", M + "discover_simulation_parameters", scope="each option given or not")
def discover(c):
    """the log, the model, the target and the limits reach the discovery as given, or as documented if they are left out"""
    m = c.mod("cli.diff_res_bpsim")
    lp = c.mod("bpdfr_discovery.log_parser")
    ran = []
    read = {}
    c.patch(m, "run_simulation", lambda *a, **k: ran.append(("simulation",)))

    def discovery(log_path, bpmn_path, out_f_path, minutes_x_granule, min_confidence, min_support, min_participation, fit_calendar, is_csv=False, *more):
        ran.append((log_path, bpmn_path, out_f_path, minutes_x_granule, min_confidence, min_support, min_participation, fit_calendar))
        lp.parse_and_validate_input(log_path, bpmn_path, minutes_x_granule, min_confidence, min_support, min_participation, True)
    c.patch(m, "preprocess_xes_log", discovery)
    c.patch(lp, "parse_simulation_model", lambda p: read.setdefault("model", p))
    c.patch(lp, "parse_csv", lambda p: read.setdefault("log", p))
    given = {"granule_size": c.choice("granule", [None, 15, 60]), "conf": c.choice("confidence", [None, 0, .5]), "supp": c.choice("support", [None, .25, 1]),
             "part": c.choice("participation", [None, .4])}
    args = [("bpmn_path", "m.bpmn"), ("log_path", "l.xes"), ("out_json", "o.json")] + [(k, v) for k, v in given.items() if v is not None]
    c.call(m.cli.main, ["discover-simulation-parameters"] + line(args), standalone_mode=False)
    usual = {"granule_size": 60, "conf": .1, "supp": .7, "part": .3}
    c.check("one discovery", len(ran) == 1)
    c.check("from the given log and model into the given file", ran[0][:3] == ("l.xes", "m.bpmn", "o.json") and read == {"model": "m.bpmn", "log": "l.xes"})
    c.check("with the given or the usual limits", list(ran[0][3:7]) == [usual[k] if v is None else v for k, v in given.items()])
    c.check("of working time", ran[0][7] is True)
