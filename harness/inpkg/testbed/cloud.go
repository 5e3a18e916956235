package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/awserr"
	"github.com/aws/aws-sdk-go/service/ec2"
	"github.com/vultr/govultr"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/mc"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vgovultr"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vos"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vrand"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vs"
	"github.com/yangl1996/rateless-set-reconcile/zzverif/vsession"
)

// The cloud commands run against providers that exist only in the harness.

type zzEnd struct {
	exited bool
	code   int
}

// zzCloudRun runs a command of the program and tells how it ended.
func zzCloudRun(x *mc.X, answer string, f func()) zzEnd {
	vrand.Global = rand.New(rand.NewSource(4))
	vs.Reset()
	zzPrinted()
	zzFile("answer", []byte(answer))
	in, err := os.Open("answer")
	if err != nil {
		panic(err)
	}
	defer in.Close()
	realOut, realIn := os.Stdout, os.Stdin
	os.Stdout, os.Stdin, vos.Stdout, vos.Stdin = zzOut, in, zzOut, in
	defer func() { os.Stdout, os.Stdin, vos.Stdout, vos.Stdin = realOut, realIn, realOut, realIn }()
	res := vs.Run(x, vs.Options{MaxSteps: 20000}, func() {
		f()
		vs.Stop(vos.Exited{}) // the end of main is the end of the program
	})
	if e, ok := res.Panic.(vos.Exited); ok {
		return zzEnd{true, e.Code}
	}
	if res.Panic != nil {
		x.Fail("%s panics: %v\n%s", res.PanicIn, res.Panic, res.Stack)
	}
	if res.Limit {
		x.Fail("no end after %d steps", res.Steps)
	}
	if !res.Done {
		x.Fail("stuck: %s", strings.Join(res.Blocked, "; "))
	}
	return zzEnd{}
}

func (e zzEnd) ok() bool { return e.code == 0 }

// zzNever is something the provider says when a request fails.
func zzSays(what string) string { return "refused<" + what + ">" }

func zzMentions(lines []string, what string) int {
	n := 0
	for _, l := range lines {
		if strings.Contains(l, zzSays(what)) {
			n++
		}
	}
	return n
}

// zzFailureOf makes the failure of a request, in one of the forms failures have.
func zzFailureOf(what string, kind int) error {
	if kind == 2 {
		return awserr.New("Refused", zzSays(what), nil)
	}
	return errors.New(zzSays(what))
}

// zzListOf checks the written server list.
func zzListOf(x *mc.X, path string, want []Server) {
	b, err := os.ReadFile(path)
	if err != nil {
		x.Fail("the server list is not written: %v", err)
	}
	var got []Server
	if err := json.Unmarshal(b, &got); err != nil {
		x.Fail("the written server list cannot be read: %v", err)
	}
	sort.Slice(want, func(i, j int) bool {
		if want[i].Location != want[j].Location {
			return want[i].Location < want[j].Location
		}
		return want[i].ID < want[j].ID
	})
	if len(got) != len(want) {
		x.Fail("%d servers are listed instead of %d: %v", len(got), len(want), got)
	}
	for i := range got {
		if got[i] != want[i] {
			x.Fail("entry %d of the list is %v instead of %v", i, got[i], want[i])
		}
	}
	// what is written is what the experiment commands read
	for i, s := range ReadServerInfo(path) {
		if s != want[i] {
			x.Fail("entry %d of the list is read as %v instead of %v", i, s, want[i])
		}
	}
}

// ---- Vultr

type zzVultr struct {
	x       *mc.X
	regions []govultr.Region
	plans   []govultr.Plan
	keys    []govultr.SSHKey
	oses    []govultr.OS
	scripts []govultr.StartupScript
	servers []govultr.Server

	seen    int             // requests so far
	failAt  int             // the request that fails, -1 for none
	failing map[string]bool // and those on these servers
	created []govultr.Server
	opts    []govultr.ServerOptions
	osids   []int
	planids []int
	rids    []int
	deleted map[string]int
	booted  map[string]int
	failed  []string
	tags    []string
}

func (v *zzVultr) request(name string) error {
	vs.Point()
	defer vs.Point()
	v.seen++
	if v.seen-1 == v.failAt || v.failing[name] {
		v.failed = append(v.failed, name)
		return errors.New(zzSays(name))
	}
	return nil
}

type zzPlanSvc struct {
	govultr.PlanService
	v *zzVultr
}
type zzRegionSvc struct {
	govultr.RegionService
	v *zzVultr
}
type zzKeySvc struct {
	govultr.SSHKeyService
	v *zzVultr
}
type zzOSSvc struct {
	govultr.OSService
	v *zzVultr
}
type zzScriptSvc struct {
	govultr.StartupScriptService
	v *zzVultr
}
type zzServerSvc struct {
	govultr.ServerService
	v *zzVultr
}

func (s zzPlanSvc) List(context.Context, string) ([]govultr.Plan, error) {
	if err := s.v.request("plans"); err != nil {
		return nil, err
	}
	return append([]govultr.Plan(nil), s.v.plans...), nil
}
func (s zzRegionSvc) List(context.Context) ([]govultr.Region, error) {
	if err := s.v.request("regions"); err != nil {
		return nil, err
	}
	return append([]govultr.Region(nil), s.v.regions...), nil
}
func (s zzKeySvc) List(context.Context) ([]govultr.SSHKey, error) {
	if err := s.v.request("keys"); err != nil {
		return nil, err
	}
	return append([]govultr.SSHKey(nil), s.v.keys...), nil
}
func (s zzOSSvc) List(context.Context) ([]govultr.OS, error) {
	if err := s.v.request("systems"); err != nil {
		return nil, err
	}
	return append([]govultr.OS(nil), s.v.oses...), nil
}
func (s zzScriptSvc) List(context.Context) ([]govultr.StartupScript, error) {
	if err := s.v.request("scripts"); err != nil {
		return nil, err
	}
	return append([]govultr.StartupScript(nil), s.v.scripts...), nil
}
func (s zzServerSvc) alive() (r []govultr.Server) {
	for _, o := range s.v.servers {
		if s.v.deleted[o.InstanceID] == 0 {
			r = append(r, o)
		}
	}
	return
}
func (s zzServerSvc) List(context.Context) ([]govultr.Server, error) {
	if err := s.v.request("servers"); err != nil {
		return nil, err
	}
	return s.alive(), nil
}
func (s zzServerSvc) ListByTag(_ context.Context, tag string) ([]govultr.Server, error) {
	if err := s.v.request("servers"); err != nil {
		return nil, err
	}
	s.v.tags = append(s.v.tags, tag)
	var r []govultr.Server
	for _, o := range s.alive() {
		if o.Tag == tag {
			r = append(r, o)
		}
	}
	return r, nil
}
func (s zzServerSvc) Create(_ context.Context, region, plan, osid int, o *govultr.ServerOptions) (*govultr.Server, error) {
	n := len(s.v.created)
	if err := s.v.request(fmt.Sprint("create ", n)); err != nil {
		return nil, err
	}
	tag := ""
	if o != nil {
		tag = o.Tag
		s.v.opts = append(s.v.opts, *o)
	} else {
		s.v.opts = append(s.v.opts, govultr.ServerOptions{})
	}
	c := govultr.Server{InstanceID: []string{"905", "91", "1000", "89"}[n%4] + fmt.Sprint(n/4), MainIP: fmt.Sprintf("203.0.113.%d", n), Location: fmt.Sprint("at ", region), Tag: tag, Status: "pending"}
	s.v.created = append(s.v.created, c)
	s.v.rids, s.v.planids, s.v.osids = append(s.v.rids, region), append(s.v.planids, plan), append(s.v.osids, osid)
	s.v.servers = append(s.v.servers, c)
	r := c
	return &r, nil
}
func (s zzServerSvc) Delete(_ context.Context, id string) error {
	if err := s.v.request("delete " + id); err != nil {
		return err
	}
	s.v.deleted[id]++
	return nil
}
func (s zzServerSvc) Reboot(_ context.Context, id string) error {
	if err := s.v.request("reboot " + id); err != nil {
		return err
	}
	s.v.booted[id]++
	return nil
}

func (v *zzVultr) install() {
	v.failAt, v.deleted, v.booted, v.failing = -1, map[string]int{}, map[string]int{}, map[string]bool{}
	vgovultr.OnClient = func(c *govultr.Client) {
		c.Plan, c.Region, c.SSHKey = zzPlanSvc{v: v}, zzRegionSvc{v: v}, zzKeySvc{v: v}
		c.OS, c.StartupScript, c.Server = zzOSSvc{v: v}, zzScriptSvc{v: v}, zzServerSvc{v: v}
	}
	vsession.OnSession = func(string) error { return errors.New("not this provider") }
}

// zzFailures checks how a command that ends with its first failure ended.
func (v *zzVultr) ended(end zzEnd, lines []string) {
	if len(v.failed) == 0 {
		if !end.ok() {
			v.x.Fail("nothing has failed, but the command ends with status %d: %q", end.code, lines)
		}
		return
	}
	if end.ok() {
		v.x.Fail("%q failed, but the command ends as if nothing had; printed: %q", v.failed, lines)
	}
	for _, f := range v.failed {
		if zzMentions(lines, f) > 0 {
			return
		}
	}
	v.x.Fail("%q failed, but what is printed does not say so: %q", v.failed, lines)
}

var zzCity = []govultr.Region{{RegionID: "12", Name: "New Jersey"}, {RegionID: "5", Name: "Seoul"}, {RegionID: "7", Name: "Amsterdam"}, {RegionID: "34", Name: "New Delhi"}, {RegionID: "1", Name: "Tokyo"}}

func zzPick(n, set int) (r []int) {
	for i := 0; i < n; i++ {
		if set>>i&1 == 1 {
			r = append(r, i)
		}
	}
	return
}

// states a server can be in: status, state, whether it may be acted on
var zzStates = []struct {
	status, state string
	may           bool
}{{"active", "ok", true}, {"active", "installingbooting", true}, {"pending", "none", false}, {"active", "locked", false}, {"closed", "ok", false}}

// zzTags: the tag asked for is "exp".
var zzTags = []string{"exp", "other", "", "exp2"}

// zzID: the order of the identifiers is that of their texts
var zzID = []string{"5000", "61", "500", "7"}

func zzVultrServers(x *mc.X, n, states, tags int) (l []govultr.Server, which []int) {
	for i := 0; i < n; i++ {
		s, t := x.Choose(states), x.Choose(tags)
		l = append(l, govultr.Server{InstanceID: zzID[i], MainIP: fmt.Sprintf("203.0.113.%d", 100+i), Location: []string{"Tokyo", "Oslo"}[i/2%2],
			Tag: zzTags[t], Status: zzStates[s].status, ServerState: zzStates[s].state})
		if t == 0 && zzStates[s].may {
			which = append(which, i)
		}
	}
	return
}

// zzAnswers to the question whether one is sure.
var zzAnswers = []struct {
	flag, in string
	yes      bool
}{{"-y", "", true}, {"", "y\n", true}, {"", "Y\n", true}, {"", "n\n", false}, {"", "\n", false}, {"", "", false}, {"", "no\ny\n", false}}

func zzCommand(action string, a int, more ...string) []string {
	args := []string{action, "-t", "exp"}
	if f := zzAnswers[a].flag; f != "" {
		args = append(args, f)
	}
	return append(args, more...)
}

// zzUnconfirmed checks that nothing has been changed.
func (v *zzVultr) untouched(end zzEnd) {
	if len(v.created)+len(v.deleted)+len(v.booted) > 0 {
		v.x.Fail("without confirmation %d servers are created, %v deleted, %v rebooted", len(v.created), v.deleted, v.booted)
	}
}

func (v *zzVultr) only(action string, m map[string]int, may []int, all bool) {
	want := map[string]bool{}
	for _, i := range may {
		want[v.servers[i].InstanceID] = true
	}
	for id, n := range m {
		if !want[id] {
			v.x.Fail("%s of %s, which is none of the servers to act on (%v)", action, id, v.servers)
		}
		if n > 1 {
			v.x.Fail("%d times %s of %s", n, action, id)
		}
	}
	if all {
		for id := range want {
			if m[id] != 1 {
				v.x.Fail("no %s of %s (%v)", action, id, v.servers)
			}
		}
	}
}

func (v *zzVultr) observe(end zzEnd, lines []string) {
	h := mc.HashString(fmt.Sprint(end, v.failed, v.rids, v.deleted, v.booted, strings.Join(lines, "\n")))
	v.x.State(h)
	v.x.Observe(h)
}

func zzVultrStart(x *mc.X, regions int, full bool) {
	v := &zzVultr{x: x}
	v.install()
	order := x.Choose(2)
	for i := 0; i < regions; i++ {
		r := zzCity[i]
		if order == 1 {
			r = zzCity[regions-1-i]
		}
		v.regions = append(v.regions, r)
	}
	supported := zzPick(regions, x.Choose(1<<regions))
	good := govultr.Plan{PlanID: 523, Price: "80.00"}
	for _, i := range supported {
		var id int
		fmt.Sscan(v.regions[i].RegionID, &id)
		good.Regions = append(good.Regions, id)
	}
	count := 1 + x.Choose(2)
	filter := []string{"", "new", "NEW J", "Seoul", "atlantis"}[x.Choose(5)]
	world, ask, failAt := 0, 0, -1
	if full {
		world, ask = x.Choose(7), x.Choose(len(zzAnswers))
	} else {
		failAt = x.Choose(6+2*regions) - 1
	}
	v.failAt = failAt
	other := govultr.Plan{PlanID: 9, Price: "80.00", Regions: []int{12, 5, 7, 34, 1}}
	twin := govultr.Plan{PlanID: 523, Price: "40.00", Regions: []int{12, 5, 7, 34, 1}}
	v.plans = []govultr.Plan{other, good, twin}
	v.keys = []govultr.SSHKey{{SSHKeyID: "k0", Name: "laptop"}, {SSHKeyID: "k1", Name: "macOS Testbed"}, {SSHKeyID: "k2", Name: "old"}}
	v.oses = []govultr.OS{{OsID: 3, Name: "Ubuntu 20.04 x64"}, {OsID: 17, Name: "Ubuntu 22.04 x64"}, {OsID: 18, Name: "Debian"}}
	v.scripts = []govultr.StartupScript{{ScriptID: "s0", Name: "noop"}, {ScriptID: "s1", Name: "increase-sshmaxsessions"}}
	v.servers = []govultr.Server{{InstanceID: "77", Tag: "exp", MainIP: "198.51.100.7", Location: "Oslo", Status: "active", ServerState: "ok"}}
	missing := false
	switch world {
	case 1:
		v.plans, missing = []govultr.Plan{other, twin}, true
	case 2:
		v.keys, missing = v.keys[:1], true
	case 3:
		v.oses, missing = v.oses[:1], true
	case 4:
		v.scripts, missing = v.scripts[:1], true
	case 5:
		v.plans = []govultr.Plan{twin, good, other}
	case 6:
		v.regions = append(v.regions, govultr.Region{RegionID: "nowhere", Name: "x"})
		missing = true
	}
	os.Remove("list.json")
	end := zzCloudRun(x, zzAnswers[ask].in, func() {
		dispatchCluster(zzCommand("start", ask, "-l", "list.json", "-d", filter, "-n", fmt.Sprint(count), "-p", "80"))
	})
	lines := zzPrinted()
	defer v.observe(end, lines)
	if !zzAnswers[ask].yes {
		v.untouched(end)
		return
	}
	if missing {
		if end.ok() {
			x.Fail("what the servers need is missing (%d), but the command ends as if all were well: %q", world, lines)
		}
		v.untouched(end)
		return
	}
	v.ended(end, lines)
	want := map[int]int{}
	for _, i := range supported {
		n := strings.ToLower(v.regions[i].Name)
		if n == "seoul" || filter != "" && !strings.Contains(n, strings.ToLower(filter)) {
			continue
		}
		var id int
		fmt.Sscan(v.regions[i].RegionID, &id)
		want[id] = count
	}
	got := map[int]int{}
	for i, r := range v.rids {
		got[r]++
		if got[r] > want[r] {
			x.Fail("%d servers are created in region %d, %d wanted", got[r], r, want[r])
		}
		o := v.opts[i]
		if v.planids[i] != 523 || v.osids[i] != 17 || o.Tag != "exp" || o.ScriptID != "s1" || len(o.SSHKeyIDs) != 1 || o.SSHKeyIDs[0] != "k1" {
			x.Fail("a server is created with plan %d, system %d and %v", v.planids[i], v.osids[i], o)
		}
	}
	if len(v.failed) > 0 {
		return
	}
	for r, n := range want {
		if got[r] != n {
			x.Fail("%d servers are created in region %d, %d wanted", got[r], r, n)
		}
	}
	var list []Server
	for _, c := range v.created {
		list = append(list, Server{ID: c.InstanceID, PublicIP: c.MainIP, PrivateIP: c.MainIP, Location: c.Location, Tag: c.Tag, Provider: "vultr", User: "root", KeyPath: zzDir + "/.ssh/vultr", Port: 22})
	}
	zzListOf(x, "list.json", list)
}

func zzVultrStop(x *mc.X, n int) {
	v := &zzVultr{x: x}
	v.install()
	states := len(zzStates)
	ask := 0
	if n <= 2 {
		ask = x.Choose(len(zzAnswers))
	}
	var may []int
	v.servers, may = zzVultrServers(x, n, states, len(zzTags))
	if zzAnswers[ask].yes && ask < 2 {
		v.failAt = x.Choose(n+3) - 1
	}
	all := append([]govultr.Server(nil), v.servers...)
	end := zzCloudRun(x, zzAnswers[ask].in, func() { dispatchCluster(zzCommand("stop", ask)) })
	lines := zzPrinted()
	defer v.observe(end, lines)
	v.servers = all
	if !zzAnswers[ask].yes {
		v.untouched(end)
		return
	}
	v.ended(end, lines)
	if len(v.created)+len(v.booted) > 0 {
		x.Fail("stopping creates %d servers and reboots %v", len(v.created), v.booted)
	}
	v.only("delete", v.deleted, may, len(v.failed) == 0)
	v.observe(end, lines)
}

func zzVultrReboot(x *mc.X, n, states, tags int) {
	v := &zzVultr{x: x}
	v.install()
	ask := 0
	if n <= 1 {
		ask = x.Choose(len(zzAnswers))
	}
	var may []int
	v.servers, may = zzVultrServers(x, n, states, tags)
	if zzAnswers[ask].yes && ask < 2 {
		f := x.Choose(1<<n + 1)
		if f == 1<<n {
			v.failAt = 0
		} else {
			for _, i := range zzPick(n, f) {
				v.failing["reboot "+v.servers[i].InstanceID] = true
			}
		}
	}
	end := zzCloudRun(x, zzAnswers[ask].in, func() { dispatchCluster(zzCommand("reboot", ask)) })
	lines := zzPrinted()
	defer v.observe(end, lines)
	if !zzAnswers[ask].yes {
		v.untouched(end)
		return
	}
	v.ended(end, lines)
	if len(v.created)+len(v.deleted) > 0 {
		x.Fail("rebooting creates %d servers and deletes %v", len(v.created), v.deleted)
	}
	v.only("reboot", v.booted, may, len(v.failed) == 0)
}

func zzVultrStatus(x *mc.X, n int) {
	v := &zzVultr{x: x}
	v.install()
	v.servers, _ = zzVultrServers(x, n, 3, len(zzTags))
	tag := []string{"exp", ""}[x.Choose(2)]
	where := x.Choose(3)
	v.failAt = x.Choose(2) - 1
	path := []string{"list.json", "", "missing/list.json"}[where]
	os.Remove("list.json")
	args := []string{"status", "-t", tag}
	if path != "" {
		args = append(args, "-l", path)
	}
	end := zzCloudRun(x, "", func() { dispatchCluster(args) })
	lines := zzPrinted()
	defer v.observe(end, lines)
	v.untouched(end)
	if where == 2 {
		if end.ok() {
			x.Fail("the server list cannot be written, but the command ends as if it were: %q", lines)
		}
		return
	}
	v.ended(end, lines)
	if len(v.failed) > 0 || where != 0 {
		return
	}
	var list []Server
	for _, c := range v.servers {
		if tag == "" || c.Tag == tag {
			list = append(list, Server{ID: c.InstanceID, PublicIP: c.MainIP, PrivateIP: c.MainIP, Location: c.Location, Tag: c.Tag, Provider: "vultr", User: "root", KeyPath: zzDir + "/.ssh/vultr", Port: 22})
		}
	}
	zzListOf(x, "list.json", list)
}

// ---- AWS

type zzInstance struct {
	id, tag         string
	code            int64
	public, private string
}

type zzRegion struct {
	name            string
	hasKey, hasSG   bool
	page            int
	instances       []zzInstance
	fail            map[string]bool // operations that fail
	failed          []string
	run             []*ec2.RunInstancesInput
	terminated      []string
	madeKey, madeSG bool
	opened          bool
}

type zzAWS struct {
	x       *mc.X
	regions []*zzRegion
	kind    int
	fail    bool // the list of regions cannot be had
	failed  bool
	fetches int
	lost    map[int]bool // fetches of the image list that fail
	lostN   int
	body    string
}

var zzRegionName = []string{"us-east-1", "eu-west-3", "us-east-2", "ap-south-1"}

func zzImage(region string) string { return "ami-" + strings.ReplaceAll(region, "-", "") }

func (a *zzAWS) of(name string) *zzRegion {
	for _, r := range a.regions {
		if r.name == name {
			return r
		}
	}
	a.x.Fail("a request goes to region %q", name)
	return nil
}

func (a *zzAWS) install() {
	vgovultr.OnClient = nil
	a.lost = map[int]bool{}
	a.images()
	vsession.OnSession = func(region string) error {
		if region == "us-east-1" && len(a.regions) > 0 && a.regions[0].name != region {
			return nil
		}
		r := a.of(region)
		if r.fail["session"] {
			// the first region is also asked for the list of regions
			r.failed = append(r.failed, "session "+region)
			return zzFailureOf("session "+region, a.kind)
		}
		return nil
	}
	vsession.OnRequest = a.request
	http.DefaultTransport = zzTrip{a}
	http.DefaultClient.Transport = zzTrip{a}
}

type zzTrip struct{ a *zzAWS }

type zzBody struct {
	io.Reader
	err error
}

func (b zzBody) Close() error { return nil }
func (b zzBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}

func (t zzTrip) RoundTrip(q *http.Request) (*http.Response, error) {
	vs.Point()
	a := t.a
	k := a.fetches
	a.fetches++
	if a.lost[k] {
		a.lostN++
		if a.kind != 2 {
			return nil, errors.New(zzSays("images"))
		}
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: zzBody{strings.NewReader(a.body[:len(a.body)/2]), errors.New(zzSays("images"))}}, nil
	}
	vs.Point()
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: zzBody{strings.NewReader(a.body), nil}}, nil
}

func (a *zzAWS) request(region, op string, params, data interface{}) error {
	vs.Point()
	defer vs.Point()
	if op == "DescribeRegions" {
		if a.fail {
			a.failed = true
			return zzFailureOf("regions", a.kind)
		}
		for _, r := range a.regions {
			o := data.(*ec2.DescribeRegionsOutput)
			o.Regions = append(o.Regions, &ec2.Region{RegionName: aws.String(r.name), Endpoint: aws.String("ec2." + r.name)})
		}
		return nil
	}
	r := a.of(region)
	if r.fail[op] {
		r.failed = append(r.failed, op+" "+region)
		return zzFailureOf(op+" "+region, a.kind)
	}
	switch o := data.(type) {
	case *ec2.DescribeKeyPairsOutput:
		if r.hasKey || r.madeKey {
			o.KeyPairs = []*ec2.KeyPairInfo{{KeyName: aws.String("key-" + region)}}
		}
	case *ec2.ImportKeyPairOutput:
		if r.hasKey || r.madeKey {
			a.x.Fail("the key is uploaded to %s, which has it", region)
		}
		r.madeKey = true
		o.KeyName = aws.String("key-" + region)
	case *ec2.DescribeSecurityGroupsOutput:
		if r.hasSG || r.madeSG {
			o.SecurityGroups = []*ec2.SecurityGroup{{GroupId: aws.String("sg-" + region)}}
		}
	case *ec2.DescribeVpcsOutput:
		o.Vpcs = []*ec2.Vpc{{VpcId: aws.String("vpc-" + region)}, {VpcId: aws.String("vpc2-" + region)}}
	case *ec2.CreateSecurityGroupOutput:
		in := params.(*ec2.CreateSecurityGroupInput)
		if r.hasSG || r.madeSG {
			a.x.Fail("a security group is created in %s, which has one", region)
		}
		if v := aws.StringValue(in.VpcId); v != "vpc-"+region {
			a.x.Fail("the security group of %s is created in %q", region, v)
		}
		r.madeSG = true
		o.GroupId = aws.String("sg-" + region)
	case *ec2.AuthorizeSecurityGroupIngressOutput:
		in := params.(*ec2.AuthorizeSecurityGroupIngressInput)
		if g := aws.StringValue(in.GroupId); g != "sg-"+region {
			a.x.Fail("the group %q is opened in %s", g, region)
		}
		r.opened = true
	case *ec2.Reservation:
		in := params.(*ec2.RunInstancesInput)
		if aws.StringValue(in.ImageId) == "" {
			a.x.Fail("servers in %s are asked for without an image", region)
		}
		r.run = append(r.run, in)
	case *ec2.TerminateInstancesOutput:
		for _, id := range params.(*ec2.TerminateInstancesInput).InstanceIds {
			r.terminated = append(r.terminated, aws.StringValue(id))
		}
	case *ec2.DescribeInstancesOutput:
		in := params.(*ec2.DescribeInstancesInput)
		var l []zzInstance
		for _, i := range r.instances {
			ok := true
			for _, f := range in.Filters {
				switch aws.StringValue(f.Name) {
				case "tag:pika":
					in := false
					for _, w := range f.Values {
						in = in || aws.StringValue(w) == i.tag
					}
					ok = ok && in && i.tag != "-"
				case "tag-key":
					in := false
					for _, w := range f.Values {
						in = in || aws.StringValue(w) == "pika" && i.tag != "-"
					}
					ok = ok && in
				case "instance-state-code":
					in := false
					for _, w := range f.Values {
						in = in || aws.StringValue(w) == fmt.Sprint(i.code)
					}
					ok = ok && in
				case "instance-state-name":
					in := false
					for _, w := range f.Values {
						in = in || aws.StringValue(w) == zzStateName[i.code&255]
					}
					ok = ok && in
				default:
					a.x.Fail("the provider of the harness does not know the filter %q", aws.StringValue(f.Name))
				}
			}
			if ok {
				l = append(l, i)
			}
		}
		from := 0
		fmt.Sscan(aws.StringValue(in.NextToken), &from)
		to := len(l)
		if r.page > 0 && to > from+r.page {
			to = from + r.page
			o.NextToken = aws.String(fmt.Sprint(to))
		}
		if from > to {
			from = to
		}
		for k, i := range l[from:to] {
			out := &ec2.Instance{InstanceId: aws.String(i.id), State: &ec2.InstanceState{Code: aws.Int64(i.code), Name: aws.String(zzStateName[i.code&255])}}
			if i.public != "" {
				out.PublicIpAddress = aws.String(i.public)
			}
			if i.private != "" {
				out.PrivateIpAddress = aws.String(i.private)
			}
			if i.tag != "-" {
				out.Tags = []*ec2.Tag{{Key: aws.String("pika"), Value: aws.String(i.tag)}}
			}
			if k%2 == 0 {
				o.Reservations = append(o.Reservations, &ec2.Reservation{})
			}
			last := o.Reservations[len(o.Reservations)-1]
			last.Instances = append(last.Instances, out)
		}
	default:
		a.x.Fail("the provider of the harness does not know %s", op)
	}
	return nil
}

var zzStateName = map[int64]string{0: "pending", 16: "running", 32: "shutting-down", 48: "terminated", 64: "stopping", 80: "stopped"}

func (a *zzAWS) images() {
	a.body = "{\"aaData\": [\n"
	line := func(region, name, version, arch, kind, id string) {
		a.body += fmt.Sprintf(`["%s","%s","%s","%s","%s","20220810","<a href=\"https://console.aws.amazon.com/ec2/home?region=%s#launchAmi=%s\">%s</a>","aki"],`+"\n", region, name, version, arch, kind, region, id, id)
	}
	line("us-east-11", "focal", "20.04 LTS", "amd64", "hvm:ebs-ssd", "ami-far")
	for i, r := range a.regions {
		switch i % 3 {
		case 0:
			line(r.name, "jammy", "22.04 LTS", "amd64", "hvm:ebs-ssd", "ami-jammy")
		case 1:
			line(r.name, "focal", "20.04 LTS", "arm64", "hvm:ebs-ssd", "ami-arm")
		case 2:
			line(r.name, "bionic", "18.04 LTS", "amd64", "hvm:ebs-ssd", "ami-bionic")
		}
		line(r.name, "focal", "20.04 LTS", "amd64", "hvm:ebs-ssd", zzImage(r.name))
	}
	line("us-gov-east-1", "focal", "20.04 LTS", "amd64", "hvm:ebs-ssd", "ami-gov")
	a.body += "]}\n"
}

func (a *zzAWS) any() bool {
	for _, r := range a.regions {
		if len(r.failed) > 0 {
			return true
		}
	}
	return a.failed || a.lostN > 0
}

// reported: what failed in a region is said, and nothing else.
func (a *zzAWS) reported(lines []string) {
	for _, r := range a.regions {
		if len(r.failed) == 0 {
			continue
		}
		said := 0
		for _, f := range r.failed {
			said += zzMentions(lines, f)
		}
		if said == 0 {
			a.x.Fail("%q failed in %s, but nothing says so: %q", r.failed, r.name, lines)
		}
	}
	if a.lostN > 0 && zzMentions(lines, "images") < 1 {
		a.x.Fail("the image list could not be had, but nothing says so: %q", lines)
	}
	for _, l := range lines {
		if strings.Contains(l, "refused<") {
			known := a.lostN > 0 && strings.Contains(l, zzSays("images")) || a.failed && strings.Contains(l, zzSays("regions"))
			for _, r := range a.regions {
				for _, f := range r.failed {
					known = known || strings.Contains(l, zzSays(f))
				}
			}
			if !known {
				a.x.Fail("%q is printed, which did not happen", l)
			}
		}
	}
}

func (a *zzAWS) observe(end zzEnd, lines []string) {
	sort.Strings(lines)
	s := fmt.Sprint(end, a.fetches, lines)
	for _, r := range a.regions {
		s += fmt.Sprint(r.name, r.failed, len(r.run), r.terminated)
	}
	h := mc.HashString(s)
	a.x.State(h)
	a.x.Observe(h)
}

var zzStartOps = []string{"session", "DescribeKeyPairs", "DescribeSecurityGroups", "RunInstances", "ImportKeyPair", "DescribeVpcs", "CreateSecurityGroup", "AuthorizeSecurityGroupIngress"}

func zzAWSStart(x *mc.X, n, ops, states int, filters bool) {
	a := &zzAWS{x: x, kind: 1 + x.Choose(2)}
	for i := 0; i < n; i++ {
		r := &zzRegion{name: zzRegionName[i], fail: map[string]bool{}}
		st := x.Choose(states)
		r.hasKey, r.hasSG = st&1 == 0, st/2&1 == 0
		if states == 2 {
			r.hasSG = r.hasKey
		}
		if f := x.Choose(ops + 1); f > 0 {
			if zzStartOps[f-1] != "session" || i > 0 {
				r.fail[zzStartOps[f-1]] = true
			}
		}
		a.regions = append(a.regions, r)
	}
	a.install()
	ask, filter, count, tag := 0, "", 2, "exp"
	if filters {
		ask = x.Choose(len(zzAnswers))
		filter = []string{"", "us-", "EAST-2", "mars"}[x.Choose(4)]
		count = 1 + x.Choose(2)
		a.fail = x.Choose(2) == 1
	}
	switch x.Choose(3) {
	case 1:
		a.lost[0] = true
	case 2:
		for k := 0; k < n; k++ {
			a.lost[k] = true
		}
	}
	end := zzCloudRun(x, zzAnswers[ask].in, func() {
		dispatchCluster(zzCommand("start", ask, "-vendor", "aws", "-n", fmt.Sprint(count), "-d", filter))
	})
	lines := zzPrinted()
	defer a.observe(end, lines)
	if !zzAnswers[ask].yes || a.fail {
		for _, r := range a.regions {
			if len(r.run) > 0 || r.madeKey || r.madeSG || len(r.terminated) > 0 {
				x.Fail("something is created in %s (confirmed %v, regions unknown %v)", r.name, zzAnswers[ask].yes, a.fail)
			}
		}
		if a.failed && (end.ok() || zzMentions(lines, "regions") == 0) {
			x.Fail("the regions could not be had, but the command ends with status %d and prints %q", end.code, lines)
		}
		return
	}
	if !end.ok() && !a.any() {
		x.Fail("nothing failed, but the command ends with status %d: %q", end.code, lines)
	}
	a.reported(lines)
	without := 0
	for _, r := range a.regions {
		if len(r.terminated) > 0 {
			x.Fail("starting ends %v in %s", r.terminated, r.name)
		}
		wanted := strings.Contains(r.name, strings.ToLower(filter))
		if !wanted {
			if len(r.run) > 0 || r.madeKey || r.madeSG || len(r.failed) > 0 {
				x.Fail("region %s is not asked for, but something is done there", r.name)
			}
			continue
		}
		if len(r.run) > 1 {
			x.Fail("%d times servers are started in %s", len(r.run), r.name)
		}
		if len(r.failed) > 0 {
			if len(r.run) > 0 {
				x.Fail("servers are started in %s, where %q failed", r.name, r.failed)
			}
			continue
		}
		if len(r.run) == 0 {
			without++
			continue
		}
		in := r.run[0]
		if aws.Int64Value(in.MinCount) != int64(count) || aws.Int64Value(in.MaxCount) != int64(count) {
			x.Fail("%d to %d servers are asked for in %s instead of %d", aws.Int64Value(in.MinCount), aws.Int64Value(in.MaxCount), r.name, count)
		}
		if aws.StringValue(in.ImageId) != zzImage(r.name) || aws.StringValue(in.KeyName) != "key-"+r.name || len(in.SecurityGroupIds) != 1 || aws.StringValue(in.SecurityGroupIds[0]) != "sg-"+r.name {
			x.Fail("servers in %s are started with image %s, key %s and groups %v", r.name, aws.StringValue(in.ImageId), aws.StringValue(in.KeyName), aws.StringValueSlice(in.SecurityGroupIds))
		}
		tagged := false
		for _, t := range in.TagSpecifications {
			if aws.StringValue(t.ResourceType) == "instance" {
				for _, e := range t.Tags {
					tagged = tagged || aws.StringValue(e.Key) == "pika" && aws.StringValue(e.Value) == tag
				}
			}
		}
		if !tagged {
			x.Fail("servers in %s are started without the tag: %v", r.name, in.TagSpecifications)
		}
		if !r.hasSG && !(r.madeSG && r.opened) {
			x.Fail("servers in %s are started in a group that is not opened", r.name)
		}
	}
	if without > a.lostN {
		x.Fail("in %d regions no server is started, though nothing failed there (and the image list failed %d times)", without, a.lostN)
	}
}

func zzAWSRegions(x *mc.X, n, per, kinds int) *zzAWS {
	a := &zzAWS{x: x, kind: 1 + x.Choose(2)}
	for i := 0; i < n; i++ {
		r := &zzRegion{name: zzRegionName[i], fail: map[string]bool{}}
		for k := 0; k < per; k++ {
			in := zzInstance{id: fmt.Sprintf("i-%d%d", i, (k*3)%5), tag: "exp", code: 16, public: fmt.Sprintf("203.0.113.%d", 10*i+k), private: fmt.Sprintf("10.%d.0.%d", i, k)}
			switch x.Choose(kinds) {
			case 1:
				in.tag = "other"
			case 2:
				in.code, in.public = 0, ""
			case 3:
				in.public = "" // a private subnet
			case 4:
				in.code, in.public, in.private = 48, "", ""
			case 5:
				in.tag = "-"
			case 6:
				in.code = 256 + 16 // the high byte means nothing
			}
			r.instances = append(r.instances, in)
		}
		a.regions = append(a.regions, r)
	}
	return a
}

func (r *zzRegion) match(tag string) (l []zzInstance) {
	for _, i := range r.instances {
		if i.code&255 == 16 && i.tag != "-" && (i.tag == tag || tag == "") {
			l = append(l, i)
		}
	}
	return
}

func zzAWSStop(x *mc.X, n, per, kinds int, asks bool) {
	a := zzAWSRegions(x, n, per, kinds)
	for i, r := range a.regions {
		r.page = 1
		switch x.Choose(4) {
		case 1:
			r.fail["DescribeInstances"] = true
		case 2:
			r.fail["TerminateInstances"] = true
		case 3:
			if i > 0 {
				r.fail["session"] = true
			}
		}
	}
	a.install()
	ask := 0
	if asks {
		ask = x.Choose(len(zzAnswers))
		a.fail = x.Choose(2) == 1
	}
	end := zzCloudRun(x, zzAnswers[ask].in, func() { dispatchCluster(zzCommand("stop", ask, "-vendor", "aws")) })
	lines := zzPrinted()
	defer a.observe(end, lines)
	yes := zzAnswers[ask].yes
	if yes && a.fail {
		if end.ok() || zzMentions(lines, "regions") == 0 {
			x.Fail("the regions could not be had, but the command ends with status %d and prints %q", end.code, lines)
		}
	} else if yes && !end.ok() && !a.any() {
		x.Fail("nothing failed, but the command ends with status %d: %q", end.code, lines)
	}
	if yes {
		a.reported(lines)
	}
	for _, r := range a.regions {
		if len(r.run) > 0 {
			x.Fail("stopping starts servers in %s", r.name)
		}
		want := map[string]bool{}
		for _, i := range r.match("exp") {
			want[i.id] = true
		}
		if !yes || a.fail {
			want = nil
		}
		got := map[string]bool{}
		for _, id := range r.terminated {
			if !want[id] {
				x.Fail("%s of %s is ended; to be ended are %v", id, r.name, want)
			}
			if got[id] {
				x.Fail("%s of %s is ended twice", id, r.name)
			}
			got[id] = true
		}
		if len(r.failed) == 0 && len(got) != len(want) {
			x.Fail("%v of %s are ended instead of %v", got, r.name, want)
		}
	}
}

func zzAWSStatus(x *mc.X, n, per, kinds int) {
	a := zzAWSRegions(x, n, per, kinds)
	for i, r := range a.regions {
		r.page = i % 2 * 2
		switch x.Choose(3) {
		case 1:
			r.fail["DescribeInstances"] = true
		case 2:
			if i > 0 {
				r.fail["session"] = true
			}
		}
	}
	a.install()
	tag := []string{"exp", ""}[x.Choose(2)]
	a.fail = n == 1 && x.Choose(2) == 1
	os.Remove("list.json")
	end := zzCloudRun(x, "", func() { dispatchCluster([]string{"status", "-vendor", "aws", "-t", tag, "-l", "list.json"}) })
	lines := zzPrinted()
	defer a.observe(end, lines)
	for _, r := range a.regions {
		if len(r.run) > 0 || len(r.terminated) > 0 {
			x.Fail("the status of the servers is asked for, and servers are started or ended in %s", r.name)
		}
	}
	if a.fail {
		if end.ok() || zzMentions(lines, "regions") == 0 {
			x.Fail("the regions could not be had, but the command ends with status %d and prints %q", end.code, lines)
		}
		return
	}
	if !end.ok() && !a.any() {
		x.Fail("nothing failed, but the command ends with status %d: %q", end.code, lines)
	}
	a.reported(lines)
	var list []Server
	for _, r := range a.regions {
		if len(r.failed) > 0 {
			continue
		}
		for _, i := range r.match(tag) {
			list = append(list, Server{ID: i.id, PublicIP: i.public, PrivateIP: i.private, Location: r.name, Tag: tag, Provider: "aws", User: "ubuntu", KeyPath: zzDir + "/.ssh/pikaaws", Port: 22})
		}
	}
	zzListOf(x, "list.json", list)
}

// zzUnwritable: the list cannot be written where it should go.
func zzUnwritable(x *mc.X) {
	vendor := x.Choose(2)
	n := 1 + x.Choose(2)
	var end zzEnd
	vos.Path = func(name string) string {
		if name == "list.json" {
			return "/dev/full"
		}
		return zzPath(name)
	}
	defer func() { vos.Path = zzPath }()
	if vendor == 0 {
		v := &zzVultr{x: x}
		v.install()
		for i := 0; i < n; i++ {
			v.servers = append(v.servers, govultr.Server{InstanceID: fmt.Sprint(i), Tag: "exp", Status: "active"})
		}
		end = zzCloudRun(x, "", func() { dispatchCluster([]string{"status", "-t", "exp", "-l", "list.json"}) })
	} else {
		a := zzAWSRegions(x, n, 1, 1)
		a.install()
		end = zzCloudRun(x, "", func() { dispatchCluster([]string{"status", "-vendor", "aws", "-t", "exp", "-l", "list.json"}) })
	}
	lines := zzPrinted()
	if end.ok() {
		x.Fail("the disk is full and the server list is lost, but the command ends as if it were written: %q", lines)
	}
	h := mc.HashString(fmt.Sprint(vendor, n, end, lines))
	x.State(h)
	x.Observe(h)
}

func zzPath(name string) string {
	if filepath.Base(name) == "pikaaws" || strings.HasSuffix(name, "/vultr") {
		return filepath.Join(zzDir, zzKeyFile[0])
	}
	return name
}

// zzBadKey: the key to upload cannot be used.
func zzBadKey(x *mc.X) {
	a := &zzAWS{x: x, kind: 1}
	n := 1 + x.Choose(3)
	for i := 0; i < n; i++ {
		a.regions = append(a.regions, &zzRegion{name: zzRegionName[i], hasSG: true, hasKey: x.Choose(2) == 1, fail: map[string]bool{}})
	}
	a.install()
	zzFile("broken-key", []byte("this is no key\n"))
	broken := []string{"broken-key", "no-such-file"}[x.Choose(2)]
	vos.Path = func(name string) string {
		if p := zzPath(name); p != name {
			return filepath.Join(zzDir, broken)
		}
		return name
	}
	defer func() { vos.Path = zzPath }()
	end := zzCloudRun(x, "", func() { dispatchCluster(zzCommand("start", 0, "-vendor", "aws")) })
	lines := zzPrinted()
	bad := 0
	for _, r := range a.regions {
		if !r.hasKey {
			bad++
		}
		if r.hasKey != (len(r.run) == 1) || r.madeKey {
			x.Fail("key known in %s %v, key uploaded %v, servers started %d times", r.name, r.hasKey, r.madeKey, len(r.run))
		}
	}
	if len(lines) < bad {
		x.Fail("in %d regions the key cannot be uploaded, but the command prints %q and ends with %d", bad, lines, end.code)
	}
	a.observe(end, lines)
}

func zzCloudAll(tier string) []mc.Config {
	var r []mc.Config
	deep := tier == "thorough"
	add := func(name string, dev, split int, f func(x *mc.X)) {
		if deep && dev > 0 {
			dev++
		}
		r = append(r, mc.Config{Name: fmt.Sprintf("%s, deviations %d", name, dev), Dev: dev, Split: split, Run: f})
	}
	for n := 1; n <= 4; n++ {
		n := n
		add(fmt.Sprintf("vultr start: %d regions, any of them supported, any request failing", n), 0, 0, func(x *mc.X) { zzVultrStart(x, n, false) })
		add(fmt.Sprintf("vultr start: %d regions, something missing, any answer", n), 0, 0, func(x *mc.X) { zzVultrStart(x, n, true) })
	}
	for n := 0; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("vultr stop: %d servers in any state, any request failing", n), 0, 0, func(x *mc.X) { zzVultrStop(x, n) })
		add(fmt.Sprintf("vultr status: %d servers", n), 0, 0, func(x *mc.X) { zzVultrStatus(x, n) })
	}
	add("vultr reboot: no server", 2, 0, func(x *mc.X) { zzVultrReboot(x, 0, 5, 4) })
	add("vultr reboot: a server in any state", 2, 0, func(x *mc.X) { zzVultrReboot(x, 1, 5, 4) })
	add("vultr reboot: two servers in any state", 1, 0, func(x *mc.X) { zzVultrReboot(x, 2, 5, 4) })
	add("vultr reboot: two servers", 3, 0, func(x *mc.X) { zzVultrReboot(x, 2, 1, 1) })
	add("vultr reboot: three servers", 2, 0, func(x *mc.X) { zzVultrReboot(x, 3, 1, 1) })
	add("aws start: 1 region, any answer, any failure", 0, 0, func(x *mc.X) { zzAWSStart(x, 1, 8, 4, true) })
	add("aws start: 2 regions, any failures", 0, 0, func(x *mc.X) { zzAWSStart(x, 2, 8, 4, false) })
	add("aws start: 2 regions, some failures", 2, 0, func(x *mc.X) { zzAWSStart(x, 2, 1, 1, false) })
	add("aws start: 3 regions, some failures, filters", 0, 0, func(x *mc.X) { zzAWSStart(x, 3, 4, 1, true) })
	add("aws start: 3 regions, failures", 1, 0, func(x *mc.X) { zzAWSStart(x, 3, 2, 1, false) })
	add("aws stop: 1 region, any answer", 0, 0, func(x *mc.X) { zzAWSStop(x, 1, 3, 7, true) })
	add("aws stop: 2 regions with servers in any state", 0, 0, func(x *mc.X) { zzAWSStop(x, 2, 1, 7, false) })
	add("aws stop: 2 regions", 1, 0, func(x *mc.X) { zzAWSStop(x, 2, 1, 3, false) })
	add("aws stop: 2 regions with 2 servers", 2, 0, func(x *mc.X) { zzAWSStop(x, 2, 2, 1, false) })
	add("aws stop: 3 regions", 1, 0, func(x *mc.X) { zzAWSStop(x, 3, 1, 1, false) })
	add("aws status: 1 region", 0, 0, func(x *mc.X) { zzAWSStatus(x, 1, 3, 7) })
	add("aws status: 2 regions with servers in any state", 0, 0, func(x *mc.X) { zzAWSStatus(x, 2, 2, 5) })
	add("aws status: 2 regions, their order", 2, 0, func(x *mc.X) { zzAWSStatus(x, 2, 1, 1) })
	add("aws status: 3 regions", 1, 0, func(x *mc.X) { zzAWSStatus(x, 3, 1, 1) })
	add("status: the disk is full", 0, 0, zzUnwritable)
	add("aws start: a key that cannot be used", 1, 0, zzBadKey)
	return r
}
