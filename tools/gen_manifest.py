"""Writes MANIFEST.json: one entry per check module present in mon/checks."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "real gateway in a simulated world under virtual time; "
T = {
    "C01": ("monitor of hooked queue events under random schedules and cancellations", "Sampled schedules on a virtual-time loop; oracle is an independent reference of what must be handed out."),
    "C02": (SIM + "faults injected into the database engine; retry times measured", "Sampled fault sequences including very long ones; delays compared with the formula."),
    "C03": (SIM + "online monitor of API status histories", "Sampled histories, faults and schedules; every status visible at a quiescent point is observed."),
    "C04": (SIM + "offline conservation checker over the log of backend calls", "Sampled histories, faults and schedules."),
    "C05": (SIM + "offline convergence and exactly-once checker over the boundary log", "Sampled histories; convergence bounded by a calm period far longer than any delay of the scenario."),
    "C06": (SIM + "offline counter-model checker over the boundary log", "Sampled histories; the count is bracketed where the log cannot tell."),
    "C07": (SIM + "deadline monitor in virtual time", "Sampled histories; deadlines are the configured ones plus the check period and the measured duration of the status check."),
    "C08": (SIM + "crash at recorded commit points and boundary events, restart from the copied database, history judged across the restart", "Crash points enumerated at every commit and boundary event of sampled histories (a sample of them in the quick tier)."),
    "C09": ("differential monitor: memory against a reloaded copy of the database after every operation, with injected statement faults; scan of the raw file for secrets", "Sampled operation sequences."),
    "C10": (SIM + "reference model of what must be forgotten", "Sampled populations, ages and faults."),
    "C11": ("access matrix run against the real application with an oracle of who may do what; every response searched for foreign secrets", "The cross product of callers, credentials, targets, states and operations is enumerated; histories are sampled."),
    "C12": ("real authenticators against a scripted identity service; oracle of who was authenticated", "Sampled and mutated credentials, cookies, clocks and faults."),
    "C13": ("real gateway against a recording, failing scheduler endpoint", "Sampled requests and fault sequences."),
    "C14": ("generated option specifications and requests against a reference validator; aliasing monitors", "Sampled specifications and values, including boundary values."),
    "C15": ("generated configurations against the defining inequalities", "Sampled configurations, dense at the boundaries."),
    "C16": ("real gateway routing service and real proxy binary under faults; convergence and update-order monitors", "Sampled fault schedules; convergence bounded in time."),
    "C17": ("real proxy binary; requests answered by backends that echo what they got, compared with a reference router", "Sampled tables and requests; includes a differential run of the router itself against a rebuilt one."),
    "C18": ("real proxy binary; every accepted byte recorded at both ends and compared", "Sampled ClientHellos, fragmentations, payloads and half-close orders."),
    "C19": ("proxy built with the Go race detector under hostile and concurrent load, with liveness probes", "Schedules as the load produces them; race detector and liveness are the oracles."),
    "C20": ("real proxy manager with a stand-in and the real binary, deaths injected, process table observed", "Sampled death sequences and configurations."),
    "C21": ("real controller against a simulated API server in virtual time; state and history monitors", "Sampled event orders, lags and API failures."),
    "C22": ("real Kubernetes backend against a simulated API server; reference model", "Sampled histories."),
    "C23": ("real informers and reflectors against a simulated watch server; trace checker of callbacks", "Sampled histories of changes, failures, relists."),
    "C24": ("real scheduler service on a simulated scheduler and recording gateway in virtual time", "Sampled histories of joins, deaths, scales and lost heartbeats."),
    "C25": ("real client against the real gateway and a scripted one; behaviour monitors", "Sampled histories and answers."),
    "C26": ("real job-queue backends and launcher against fake batch commands that record every call", "Sampled fault sequences."),
    "C27": ("real local backend with real processes in a scratch directory, ownership changes recorded by stand-ins", "Sampled process behaviours; needs real time."),
    "C28": ("TLS handshakes between peers of the same and of different clusters with the credentials generated", "All pairs of sampled clusters; certificate fields checked."),
    "C29": ("sliding-window monitor over call times in virtual time", "Sampled rates, bursts and arrival patterns."),
    "C30": ("trace monitors of the utilities under random schedules and cancellations, reference model for the cache", "Sampled schedules."),
    "C31": ("real YARN backend against a stand-in of skein that records every call; behaviour monitors in virtual time", "Sampled configurations and faults; skein itself is simulated."),
    "C32": ("real gateway and controller on one simulated API server; monitors of every object against the configuration, routes followed", "Sampled configurations; Kubernetes and Traefik rules are simulated."),
    "C33": ("the chart rendered by Go's template engine; real gateway and controller started with what it renders, on an API server that enforces the rendered roles; routes followed", "Helm's functions, Kubernetes and Traefik rules are reimplemented or simulated; sampled values."),
    "C34": ("the real client library on an in-memory network whose servers and proxies record each request; real TLS servers record names and certificates", "The gateway's side is a recording server; sampled settings."),
    "C35": ("the real program in processes of its own, ended by real signals; its backend and authenticator record what is done with them", "Sampled configurations and moments; the backend that is configured only records."),
}
LEVEL = {"C08": "fault_enumeration"}
NA = {}


def main():
    have = sorted(f[:3].upper() for f in os.listdir(os.path.join(ROOT, "mon", "checks")) if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"))
    checks, na = [], []
    for line in open(os.path.join(ROOT, "properties.jsonl")):
        pid = json.loads(line)["id"]
        if pid in have:
            tech, note = T[pid]
            checks.append(dict(
                property=pid, quick_cmd=f"./check {pid} quick", thorough_cmd=f"./check {pid} thorough",
                technique=tech, level=LEVEL.get(pid, "exploration"), level_note=note,
            ))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
    out = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
