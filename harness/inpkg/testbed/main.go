package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vexec"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vos"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vssh"
	"golang.org/x/crypto/ssh"
)

// The experiment commands run under the controlled scheduler against servers
// that exist only in the harness; nothing is executed and nothing connected.

func zzServers(n int) (l []Server) {
	for i := 0; i < n; i++ {
		l = append(l, Server{ID: fmt.Sprintf("id-%d", 100+i), PublicIP: fmt.Sprintf("192.0.2.%d", 11+i), PrivateIP: fmt.Sprintf("10.0.0.%d", 31+i),
			Port: 2200 + i, User: "user" + zzName(i), KeyPath: zzKeyFile[i], Location: "site-" + zzName(i), Tag: "t"})
	}
	return
}

var zzKeyFile []string
var zzOut *os.File
var zzDir string

func zzFile(name string, b []byte) string {
	if err := os.WriteFile(name, b, 0600); err != nil {
		panic(err)
	}
	return name
}

// output returns what was printed since the last call.
func zzPrinted() []string {
	n, _ := zzOut.Seek(0, 1)
	b := make([]byte, n)
	zzOut.ReadAt(b, 0)
	zzOut.Truncate(0)
	zzOut.Seek(0, 0)
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) != "" {
			r = append(r, l)
		}
	}
	return r
}

var zzWord = regexp.MustCompile(`[A-Za-z0-9.\-]+`)

// names tells whether a line names the server.
func zzNames(line string, i int, s Server) bool {
	for _, w := range zzWord.FindAllString(line, -1) {
		w = strings.Trim(w, ".-")
		if w == fmt.Sprint(i) || w == s.PublicIP || w == s.Location || w == s.ID {
			return true
		}
	}
	return false
}

// reported checks that exactly the failures are reported, each once. The
// detail is what the failure says about itself.
func zzReported(x *mc.X, lines []string, servers []Server, failed map[int]string, detail func(i int) string) {
	said := map[int]int{}
	for _, l := range lines {
		bare := l
		for i := range servers {
			if d := detail(i); d != "" {
				bare = strings.ReplaceAll(bare, d, "")
			}
		}
		low := strings.ToLower(bare)
		complaint := strings.Contains(low, "error") || strings.Contains(low, "fail")
		about := -1
		for i := range servers {
			if d := detail(i); d != "" && strings.Contains(l, d) {
				about = i
			}
		}
		named := []int{}
		for i, s := range servers {
			if zzNames(bare, i, s) {
				named = append(named, i)
			}
		}
		if about >= 0 || complaint {
			if len(named) != 1 {
				x.Fail("a failure is reported without naming its server: %q", l)
			}
			if about >= 0 && named[0] != about {
				x.Fail("the failure of server %d is reported as that of server %d: %q", about, named[0], l)
			}
			if _, there := failed[named[0]]; !there {
				x.Fail("a failure is reported for server %d, where everything went well: %q", named[0], l)
			}
			said[named[0]]++
		}
	}
	for i, how := range failed {
		if said[i] != 1 {
			x.Fail("the failure of server %d (%s) is reported %d times; printed: %q", i, how, said[i], lines)
		}
	}
}

// zzName names a server in letters, no name being part of another.
func zzName(i int) string { return string([]rune{rune('a' + i/26), rune('a' + i%26)}) }

func zzFailure(kind, i int) error {
	switch kind {
	case 1:
		return errors.New(zzDetail(i))
	case 2:
		return &exec.ExitError{ProcessState: &os.ProcessState{}, Stderr: []byte(zzDetail(i))}
	case 3:
		return &ssh.ExitError{}
	case 4:
		return RemoteError{errors.New(zzDetail(i)), "problem"}
	case 5:
		return &exec.ExitError{ProcessState: &os.ProcessState{}}
	case 6:
		return &ssh.ExitMissingError{}
	case 7:
		return RemoteError{nil, "problem"}
	}
	return nil
}

func zzDetail(i int) string { return "boom" + zzName(i) + "!" }

func zzControlled(x *mc.X, f func()) {
	vs.Reset()
	vrand.Global = rand.New(rand.NewSource(4))
	zzPrinted()
	// the program prints to a file of ours, the explorer to the real output
	real := os.Stdout
	os.Stdout = zzOut
	defer func() { os.Stdout = real }()
	res := vs.Run(x, vs.Options{MaxSteps: 20000}, f)
	if res.Panic != nil {
		x.Fail("%s panics: %v\n%s", res.PanicIn, res.Panic, res.Stack)
	}
	if res.Limit {
		x.Fail("no end after %d steps", res.Steps)
	}
	if !res.Done {
		x.Fail("stuck: %s", strings.Join(res.Blocked, "; "))
	}
}

func zzRunAll(tier string) []mc.Config {
	var r []mc.Config
	add := func(name string, dev, split int, f func(x *mc.X)) {
		r = append(r, mc.Config{Name: name, Dev: dev, Split: split, Run: f})
	}
	extra := 0
	if tier == "thorough" {
		extra = 1
	}
	for _, n := range []int{0, 1, 2, 3, 4, 9, 17, 40} {
		n := n
		kinds := 8
		if n >= 3 {
			kinds = 4
		}
		if n == 4 {
			kinds = 2
		}
		for _, together := range []bool{false, true} {
			together := together
			dev := 2
			if n == 4 {
				dev = 1
			}
			if n <= 2 {
				dev = 3
			}
			dev += extra
			if n > 4 {
				dev = 0
			}
			add(fmt.Sprintf("any operation on %d servers, calls wait for each other %v, deviations %d", n, together, dev), dev, 0, func(x *mc.X) {
				servers := zzServers(n)
				var clients []*vssh.Client
				fail := make([]int, n)
				for i := range servers {
					clients = append(clients, &vssh.Client{Addr: fmt.Sprint("client ", i)})
					if n <= 4 {
						fail[i] = x.Choose(kinds)
					}
				}
				if n > 4 { // one of them, or all but one
					k, which := x.Choose(kinds), x.Choose(n)
					all := x.Choose(2)
					for i := range fail {
						if (i == which) != (all == 1) {
							fail[i] = k
						}
					}
				}
				calls := make([]int, n)
				started, finished := 0, 0
				returned := false
				zzControlled(x, func() {
					runAll(servers, clients, func(i int, s Server, c *vssh.Client) error {
						if returned {
							x.Fail("server %d is served after the return", i)
						}
						if i < 0 || i >= n {
							x.Fail("called for server %d of %d", i, n)
						}
						if s != servers[i] {
							x.Fail("called for server %d with the data of %v", i, s.ID)
						}
						if c != clients[i] {
							x.Fail("called for server %d with another connection", i)
						}
						calls[i]++
						started++
						vs.Point()
						if together {
							vs.Until("the other calls", func() bool { return started >= n })
						} else if fail[i] == 0 {
							vs.Point()
						}
						finished++
						return zzFailure(fail[i], i)
					})
					returned = true
					if finished != n {
						x.Fail("returns when %d of %d calls have finished", finished, n)
					}
				})
				failed := map[int]string{}
				for i := range servers {
					if calls[i] != 1 {
						x.Fail("server %d is served %d times", i, calls[i])
					}
					if fail[i] > 0 {
						failed[i] = fmt.Sprintf("%T", zzFailure(fail[i], i))
					}
				}
				lines := zzPrinted()
				zzReported(x, lines, servers, failed, zzDetail)
				h := uint64(n)
				for i := range servers {
					h = mc.Mix(h*5 + uint64(fail[i]))
				}
				h = mc.Mix(h ^ mc.HashString(strings.Join(lines, "\n")))
				x.State(h)
				x.Observe(h)
			})
		}
	}
	// the commands of the program
	type action struct {
		name string
		args []string
	}
	actions := []action{{"install", []string{"-install", "/nowhere/binary"}}, {"run", []string{"-run", "exp.json", "-k", "7"}}, {"download", []string{"-dl", "results"}}, {"ping", []string{"-ping", "exp.json"}},
		{"install, run and download", []string{"-install", "/nowhere/binary", "-run", "exp.json", "-dl", "results"}}}
	actions[1].args = []string{"-run", "exp.json", "--", "-k", "7"}
	for _, a := range actions {
		for n := 1; n <= 3; n++ {
			a, n := a, n
			dev := 1 + extra
			if n <= 2 && len(a.args) < 6 {
				dev++
			}
			add(fmt.Sprintf("exp: %s on %d servers, deviations %d", a.name, n, dev), dev, 0, func(x *mc.X) { zzExp(x, a.name, a.args, n) })
		}
	}
	return r
}

type zzDone struct {
	addr int // server
	what string
	cmd  string
}

func zzExp(x *mc.X, name string, args []string, n int) {
	servers := zzServers(n)
	b, _ := json.Marshal(servers)
	zzFile("servers.json", b)
	var exp Experiment
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j && (i < j || i == n-1 && j == 0) {
				exp.Topology = append(exp.Topology, Connection{i, j})
			}
		}
	}
	b, _ = json.Marshal(exp)
	zzFile("exp.json", b)
	// what goes wrong: no session, or the command itself fails
	bad := make([]int, n)
	for i := range bad {
		bad[i] = x.Choose(3)
	}
	find := func(f func(Server) bool) int {
		for i, s := range servers {
			if f(s) {
				return i
			}
		}
		return -1
	}
	byAddr := func(addr string) int {
		i := find(func(s Server) bool { return addr == fmt.Sprintf("%s:%d", s.PublicIP, s.Port) })
		if i < 0 {
			x.Fail("connects to %s, which is not in the list", addr)
		}
		return i
	}
	var done []zzDone
	returned := false
	dialed := make([]int, n)
	vssh.OnDial = func(user, addr string) error {
		i := byAddr(addr)
		if user != servers[i].User {
			x.Fail("connects to server %d as %s", i, user)
		}
		dialed[i]++
		return nil
	}
	vssh.OnSession = func(addr string) error {
		if returned {
			x.Fail("%s is contacted after the command has returned", addr)
		}
		if i := byAddr(addr); bad[i] == 1 {
			return errors.New(zzDetail(i))
		}
		return nil
	}
	vssh.OnCommand = func(addr, cmd string) ([]byte, error) {
		i := byAddr(addr)
		what := "command"
		if strings.Contains(cmd, "kill") && !strings.Contains(cmd, "-l ") {
			what = "kill"
		} else if strings.Contains(cmd, "ping") {
			what = "ping"
		}
		done = append(done, zzDone{i, what, cmd})
		if what == "kill" {
			return nil, &ssh.ExitError{} // nothing to kill
		}
		if bad[i] == 2 {
			return nil, errors.New(zzDetail(i))
		}
		return []byte(" 12.5\n"), nil
	}
	vexec.OnRun = func(args []string) ([]byte, error) {
		all := strings.Join(args, " ")
		i := find(func(s Server) bool { return strings.Contains(all, s.User+"@"+s.PublicIP+":") })
		if i < 0 {
			x.Fail("runs %q, which is for none of the servers", all)
		}
		for j, s := range servers {
			if j != i && (strings.Contains(all, s.PublicIP) || strings.Contains(all, s.KeyPath)) {
				x.Fail("runs %q, which mixes up servers %d and %d", all, i, j)
			}
		}
		if !strings.Contains(all, servers[i].KeyPath) {
			x.Fail("runs %q without the key of server %d", all, i)
		}
		what := "upload"
		if !strings.HasSuffix(all, "txcode-node") {
			what = "fetch"
		}
		done = append(done, zzDone{i, what, all})
		if bad[i] == 2 {
			return nil, &exec.ExitError{ProcessState: &os.ProcessState{}, Stderr: []byte(zzDetail(i))}
		}
		return nil, nil
	}
	zzControlled(x, func() {
		dispatchBwTest(append([]string{"-l", "servers.json"}, args...))
		returned = true
	})
	count := func(i int, what string) (k int, cmd string) {
		for _, d := range done {
			if d.addr == i && d.what == what {
				k++
				cmd = d.cmd
			}
		}
		return
	}
	type stage struct{ flag, what string }
	stages := []stage{}
	for _, s := range []stage{{"-install", "upload"}, {"-ping", "ping"}, {"-run", "command"}, {"-dl", "fetch"}} {
		for _, a := range args {
			if a == s.flag {
				stages = append(stages, s)
			}
		}
	}
	for i := range servers {
		if dialed[i] != 1 {
			x.Fail("connects to server %d %d times", i, dialed[i])
		}
		for _, s := range stages {
			k, cmd := count(i, s.what)
			want := 1
			if s.what == "ping" {
				want = 0
				for _, p := range exp.Topology {
					if p.From == i {
						want++
					}
				}
			}
			if bad[i] == 1 || s.what == "ping" && bad[i] == 2 && want > 1 {
				continue // cut short by the failure
			}
			if k != want {
				x.Fail("%s: server %d gets %d instead of %d; done: %q", s.flag, i, k, want, done)
			}
			if s.what == "command" {
				for j, o := range servers {
					peer := false
					for _, p := range exp.Topology {
						if p == (Connection{i, j}) {
							peer = true
						}
					}
					if strings.Contains(cmd, o.PublicIP+":") != peer {
						x.Fail("server %d is started with %q; server %d being a peer is %v", i, cmd, j, peer)
					}
				}
			}
		}
	}
	// one stage after the other
	last := -1
	for _, d := range done {
		for k, s := range stages {
			if s.what == d.what {
				if k < last {
					x.Fail("%s on server %d before %s has finished everywhere", stages[last].flag, d.addr, s.flag)
				}
				last = k
			}
		}
	}
	// where files go
	dest := map[string]bool{}
	for _, d := range done {
		if d.what == "fetch" {
			if dest[d.cmd[strings.LastIndex(d.cmd, " "):]] {
				x.Fail("two results are stored at the same place: %q", done)
			}
			dest[d.cmd[strings.LastIndex(d.cmd, " "):]] = true
		}
	}
	lines := zzPrinted()
	if len(stages) == 1 {
		failed := map[int]string{}
		for i := range servers {
			ping := false
			for _, p := range exp.Topology {
				ping = ping || p.From == i
			}
			if bad[i] > 0 && (name != "ping" || ping) {
				failed[i] = name
			}
		}
		zzReported(x, lines, servers, failed, zzDetail)
	}
	h := mc.HashString(strings.Join(lines, "\n"))
	for _, d := range done {
		h = mc.Mix(h*3 + mc.HashString(d.cmd) + uint64(d.addr))
	}
	x.State(h)
	x.Observe(h)
}

func init() {
	for _, a := range os.Args[1:] {
		if a == "-prop" || a == "-merge" {
			for i := 2; i < len(os.Args); i++ {
				if f := os.Args[i-1]; f == "-out" || f == "-replay" {
					os.Args[i], _ = filepath.Abs(os.Args[i])
				}
			}
			var err error
			zzDir, err = os.MkdirTemp("", "zztestbed")
			if err != nil {
				panic(err)
			}
			if err := os.Chdir(zzDir); err != nil {
				panic(err)
			}
			for i := 0; i < 40; i++ {
				k := ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(i + 1)}, 32))
				b, err := x509.MarshalPKCS8PrivateKey(k)
				if err != nil {
					panic(err)
				}
				zzKeyFile = append(zzKeyFile, zzFile(fmt.Sprintf("key-%s.pem", zzName(i)), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b})))
			}
			zzOut, err = os.OpenFile("printed", os.O_RDWR|os.O_CREATE, 0600)
			if err != nil {
				panic(err)
			}
			os.Setenv("HOME", zzDir)
			vos.Path = zzPath
			mc.Main(map[string]func(string) []mc.Config{"C27": zzRunAll, "C28": zzCloudAll})
			os.Exit(0)
		}
	}
}
