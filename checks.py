# further harness binaries and properties (see run.py)
BINS["rib"] = {"main": "zzverif/rib"}
for p in ("C10", "C11", "C12", "C13", "C14"):
    PROPS[p] = {"bin": "rib"}
PROPS["C08"]["bin"] = ["codec", "rib"]
BINS["desh"] = {"main": "zzverif/desh"}
for p in ("C15", "C16"):
    PROPS[p] = {"bin": "desh"}
BINS["newsim"] = {"inpkg": ["newsim"]}
for p in ("C17", "C18", "C19"):
    PROPS[p] = {"bin": "newsim"}
BINS["simulator"] = {"inpkg": ["simulator"]}
for p in ("C20", "C21"):
    PROPS[p] = {"bin": "simulator"}
REPRO = f"math/rand={ZZ}/vrand,time={ZZ}/vstime"
for b, p, lib in (("simrepro", "simulator", "lt"), ("newsimrepro", "newsim", "riblt")):
    BINS[b] = {"inpkg": [p + ":" + b], "instr": {q: ("maps+trace", REPRO) for q in (p, "des", lib)}}
PROPS["C22"] = {"bin": ["simrepro", "newsimrepro"]}
BINS["node"] = {"inpkg": ["node"],  "instr": {
    "node": ("chan+cap", f"math/rand={ZZ}/vrand,time={ZZ}/vstime,sync={ZZ}/vssync"),
    "ldpc": ("calls", f"math/rand={ZZ}/vrand,sync={ZZ}/vsync")}}
for p in ("C23", "C24", "C25", "C26"):
    PROPS[p] = {"bin": "node", "gomaxprocs": 1}
BINS["testbed"] = {"inpkg": ["testbed"], "instr": {
    "testbed": ("chan+point+globals", f"golang.org/x/crypto/ssh={ZZ}/vssh,os/exec={ZZ}/vexec,sync={ZZ}/vssync,math/rand={ZZ}/vrand,time={ZZ}/vstime,"
                f"os={ZZ}/vos,io/ioutil={ZZ}/vioutil,github.com/vultr/govultr={ZZ}/vgovultr,github.com/aws/aws-sdk-go/aws/session={ZZ}/vsession")}}
PROPS["C28"] = {"bin": "testbed", "gomaxprocs": 1}
PROPS["C27"] = {"bin": "testbed", "gomaxprocs": 1}
ISO = ("lt", "iblt", "ldpc", "riblt")
BINS["iso"] = {"main": "zzverif/iso", "also": {"iso/adapt.go": "codec/adapt.go"},
               "instr": {p: ("chan+point", f"math/rand={ZZ}/vrand,sync={ZZ}/vssync") for p in ISO}}
BINS["isorace"] = {"main": "zzverif/iso", "also": {"iso/adapt.go": "codec/adapt.go"}, "args": ["-race"],
                   "swap": {p: f"math/rand={ZZ}/vrand,sync={ZZ}/vpool" for p in ISO}}
PROPS["C09"] = {"bin": ["iso", "isorace"], "gomaxprocs": 1}
BINS["micro"] = {"main": "zzverif/micro", "instr": {"microbenchmarks": ("chan+point", f"math/rand={ZZ}/vrand,sync={ZZ}/vssync")}}
PROPS["C09"]["bin"].append("micro")
BINS["nodemain"] = {"inpkg": ["node"],  "instr": {
    "node": ("chan+cap", f"math/rand={ZZ}/vrand,time={ZZ}/vstime,sync={ZZ}/vssync,net={ZZ}/vnet,log={ZZ}/vlog"),
    "ldpc": ("calls", f"math/rand={ZZ}/vrand,sync={ZZ}/vsync")}}
PROPS["C30"] = {"bin": "nodemain", "gomaxprocs": 1}
for b, p in (("simrun", "simulator:simrun"), ("newsimrun", "newsim:newsimrun")):
    BINS[b] = {"inpkg": [p], "instr": {p.split(":")[0]: ("trace+globals", "")}}
for p in ("C31", "C32"):
    PROPS[p] = {"bin": ["simrun", "newsimrun"]}
