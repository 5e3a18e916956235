# C27: the testbed
RUN = '''package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/crypto/ssh"
)

var _ = errors.New
var _ = exec.Command
var _ sync.Mutex
var _ atomic.Int32
var _ = time.Second
var _ = strings.Count

func zzSet(n int) (s []Server, c []*ssh.Client) {
	for i := 0; i < n; i++ {
		s = append(s, Server{ID: fmt.Sprint("id", i), PublicIP: fmt.Sprint("192.0.2.", i+1), Location: fmt.Sprint("site", i)})
		c = append(c, &ssh.Client{})
	}
	return
}

// zzAll runs the operation and returns what was printed.
func zzAll(n int, f func(i int) error) string {
	s, c := zzSet(n)
	r, w, _ := os.Pipe()
	saved := os.Stdout
	os.Stdout = w
	got := make(chan string)
	go func() { b, _ := io.ReadAll(r); got <- string(b) }()
	runAll(s, c, func(i int, s Server, c *ssh.Client) error { return f(i) })
	os.Stdout = saved
	w.Close()
	return <-got
}
'''
OLD = '''	wg := &sync.WaitGroup{}
	wg.Add(len(clients))
	for i := range clients {
		go func(i int, s Server, c *ssh.Client) {
			defer wg.Done()
			err := fn(i, s, c)
			if err != nil {
'''
TAIL = '''				switch err := err.(type) {
				case *exec.ExitError:
					fmt.Printf("error executing local command for server %v: %s\\n", i, err.Stderr)
				case *ssh.ExitError:
					fmt.Printf("error executing command on server %v: %s\\n", i, err.Msg())
				default:
					fmt.Printf("error executing on server %v: %v\\n", i, err)
				}
			}
		}(i, servers[i], clients[i])
	}
	wg.Wait()
	return nil
}
'''
SEEDS = [
 dict(id="c27-sixteen-at-once", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD, OLD.replace("	for i := range clients {\n", "	// do not open too many sessions at once\n	slots := make(chan struct{}, 16)\n	for i := range clients {\n").replace("			err := fn", "			slots <- struct{}{}\n			defer func() { <-slots }()\n			err := fn"))],
  needs="more than sixteen servers and an operation during which servers depend on each other", breaks="only sixteen servers are served at a time", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	var in atomic.Int32
	zzAll(20, func(int) error {
		in.Add(1)
		for k := 0; in.Load() < 20; k++ {
			if k > 300 {
				t.Error("not all servers are served at the same time")
				return nil
			}
			time.Sleep(10 * time.Millisecond)
		}
		return nil
	})
}
'''),
 dict(id="c27-same-failure-once", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD + TAIL, OLD.replace("	for i := range clients {\n", "	var reported sync.Map // the same failure usually hits many servers\n	for i := range clients {\n").replace("			if err != nil {\n", "			if err != nil {\n				if _, there := reported.LoadOrStore(err.Error(), true); there {\n					return\n				}\n") + TAIL)],
  needs="two servers whose failures read the same", breaks="of equal failures only one is reported", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	out := zzAll(3, func(int) error { return &ssh.ExitError{} })
	if strings.Count(out, "error") != 3 {
		t.Fatalf("three failures, printed %q", out)
	}
}
'''),
 dict(id="c27-empty-stderr", prop="C27", pkg="testbed", edits=[("testbed/exp.go", '''					fmt.Printf("error executing local command for server %v: %s\\n", i, err.Stderr)
''', '''					for _, l := range strings.Split(strings.TrimSpace(string(err.Stderr)), "\\n") {
						if l != "" {
							fmt.Printf("error executing local command for server %v: %s\\n", i, l)
						}
					}
''')],
  needs="a local command that fails without the error holding any output", breaks="such a failure is not reported", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	out := zzAll(2, func(i int) error {
		if i == 1 {
			return exec.Command("false").Run()
		}
		return nil
	})
	if !strings.Contains(out, "server 1") {
		t.Fatalf("printed %q", out)
	}
}
'''),
 dict(id="c27-lost-report", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD, OLD.replace("	for i := range clients {\n", "	failures := make(chan struct {\n		i   int\n		err error\n	}, 1)\n	reporter := &sync.WaitGroup{}\n	reporter.Add(1)\n	go func() {\n		defer reporter.Done()\n		for f := range failures {\n			report(f.i, f.err)\n		}\n	}()\n	for i := range clients {\n").split("			if err != nil {")[0] + '''			if err != nil {
				select {
				case failures <- struct {
					i   int
					err error
				}{i, err}:
				default:
					// the reporter is on its way out
				}
			}
		}(i, servers[i], clients[i])
	}
	wg.Wait()
	close(failures)
	reporter.Wait()
	return nil
}

func report(i int, err error) {
	{
		{
			{
'''), ("testbed/exp.go", '''			}
		}(i, servers[i], clients[i])
	}
	wg.Wait()
	return nil
}

// TODO: use go''', '''			}
		}
	}
}

// TODO: use go''')],
  needs="two failures at nearly the same time", breaks="a failure is dropped while another one is being reported", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		gate := make(chan bool)
		go func() { time.Sleep(time.Millisecond); close(gate) }()
		out := zzAll(12, func(int) error { <-gate; return errors.New("failed") })
		if strings.Count(out, "error executing") != 12 {
			t.Fatalf("12 failures, printed %q", out)
		}
	}
}
'''),
 dict(id="c27-unlocked-list", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD + TAIL, OLD.replace("	for i := range clients {\n", "	// print in one go so that the lines do not get mixed up with other output\n	var report []string\n	for i := range clients {\n") + TAIL.replace("fmt.Printf(", "report = append(report, fmt.Sprintf(").replace(", err.Stderr)", ", err.Stderr))").replace("err.Msg())", "err.Msg()))").replace("i, err)", "i, err))").replace("	wg.Wait()\n", "	wg.Wait()\n	fmt.Print(strings.Join(report, \"\"))\n"))],
  needs="two failures at the very same time", breaks="the list of failures is extended without a lock and loses entries", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	for k := 0; k < 30000; k++ {
		var in atomic.Int32
		out := zzAll(8, func(int) error {
			in.Add(1)
			for d := time.Now(); in.Load() < 8 && time.Since(d) < time.Second; {
			}
			return errBoom
		})
		if n := strings.Count(out, "error executing"); n != 8 {
			t.Fatalf("8 failures, %d reported", n)
		}
	}
}

var errBoom = errors.New("boom")
'''),
 dict(id="c27-shared-error", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD, OLD.replace("	for i := range clients {\n", "	var err error\n	for i := range clients {\n").replace("err := fn(i, s, c)", "err = fn(i, s, c)\n			fmt.Printf(\"done with %v\\n\", s.Location)")),
   ("testbed/exp.go", "	wg.Wait()\n	return nil\n}\n\n// TODO", "	wg.Wait()\n	return err\n}\n\n// TODO")],
  needs="an operation that ends between another one's failure and the look at it", breaks="all operations share one error variable: a success wipes out a failure", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	for k := 0; k < 30000; k++ {
		var in atomic.Int32
		out := zzAll(8, func(i int) error {
			in.Add(1)
			for d := time.Now(); in.Load() < 8 && time.Since(d) < time.Second; {
			}
			if i%2 == 0 {
				return errBoom
			}
			return nil
		})
		if n := strings.Count(out, "error executing"); n != 4 {
			t.Fatalf("4 failures, %d reported", n)
		}
	}
}

var errBoom = errors.New("boom")
'''),
 dict(id="c27-stop-at-first", prop="C27", pkg="testbed", edits=[("testbed/exp.go", OLD, OLD.replace("	for i := range clients {\n", "	var failed sync.Once\n	stop := make(chan struct{})\n	for i := range clients {\n").replace("			err := fn", "			select {\n			case <-stop:\n				return\n			default:\n			}\n			err := fn").replace("			if err != nil {\n", "			if err != nil {\n				failed.Do(func() { close(stop) })\n"))],
  needs="a failure before another operation has begun", breaks="operations that have not begun when one fails are skipped", demo=RUN + '''
func TestZZDemo(t *testing.T) {
	var calls atomic.Int32
	for k := 0; k < 50; k++ {
		calls.Store(0)
		zzAll(200, func(i int) error { calls.Add(1); return errors.New("failed") })
		if calls.Load() != 200 {
			t.Fatalf("%d of 200 servers served", calls.Load())
		}
	}
}
'''),
 dict(id="c27-connection-order", prop="C27", pkg="testbed", edits=[("testbed/exp.go", "	clients := make([]*ssh.Client, len(servers))\n", "	var clients []*ssh.Client\n	connLock := &sync.Mutex{}\n"), ("testbed/exp.go", "			clients[i] = client\n", "			connLock.Lock()\n			clients = append(clients, client)\n			connLock.Unlock()\n")],
  needs="connections that are not set up in the order of the list", breaks="operations run on the connection of another server", demo='''package main

import (
	"crypto/ed25519"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/ssh"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	os.MkdirAll(filepath.Join(dir, "empty"), 0700)
	_, k, _ := ed25519.GenerateKey(nil)
	b, _ := x509.MarshalPKCS8PrivateKey(k)
	key := filepath.Join(dir, "key")
	os.WriteFile(key, pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: b}), 0600)
	signer, _ := ssh.NewSignerFromKey(k)
	var lock sync.Mutex
	cmds := map[int]string{}
	var servers []Server
	for i := 0; i < 2; i++ {
		i := i
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		defer l.Close()
		go func() {
			c, err := l.Accept()
			if err != nil {
				return
			}
			time.Sleep(time.Duration(1-i) * 500 * time.Millisecond) // the first is slow
			cfg := &ssh.ServerConfig{NoClientAuth: true, PublicKeyCallback: func(ssh.ConnMetadata, ssh.PublicKey) (*ssh.Permissions, error) { return nil, nil }}
			cfg.AddHostKey(signer)
			_, chans, reqs, err := ssh.NewServerConn(c, cfg)
			if err != nil {
				return
			}
			go ssh.DiscardRequests(reqs)
			for nc := range chans {
				ch, rs, _ := nc.Accept()
				go func() {
					for r := range rs {
						if r.Type == "exec" {
							lock.Lock()
							cmds[i] += string(r.Payload[4:]) + ";"
							lock.Unlock()
							r.Reply(true, nil)
							ch.Write([]byte("12.5\\n"))
							ch.SendRequest("exit-status", false, ssh.Marshal(struct{ S uint32 }{0}))
							ch.Close()
						}
					}
				}()
			}
		}()
		a := l.Addr().(*net.TCPAddr)
		servers = append(servers, Server{ID: fmt.Sprint(i), PublicIP: "127.0.0.1", Port: a.Port, User: "u", KeyPath: key, Location: fmt.Sprint("site", i)})
	}
	sb, _ := json.Marshal(servers)
	os.WriteFile(filepath.Join(dir, "servers"), sb, 0600)
	eb, _ := json.Marshal(Experiment{[]Connection{{0, 1}}})
	os.WriteFile(filepath.Join(dir, "exp"), eb, 0600)
	dispatchBwTest([]string{"-l", filepath.Join(dir, "servers"), "-ping", filepath.Join(dir, "exp")})
	lock.Lock()
	defer lock.Unlock()
	if !strings.Contains(cmds[0], "ping") || strings.Contains(cmds[1], "ping") {
		t.Fatalf("server 0 should measure; commands: %v", cmds)
	}
}
'''),
]
