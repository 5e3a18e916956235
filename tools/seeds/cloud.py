# C28: the cloud commands. The demonstrations answer the providers' HTTP requests.
CLOUD = '''package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = url.Parse
var _ = json.Marshal
var _ = regexp.MustCompile
var _ sync.Mutex
var _ = time.Second

// zzProvider answers a request; action is the path for Vultr, the action and
// the region for AWS.
type zzProvider func(action string, form url.Values) (int, string)

type zzAnswer struct {
	p   zzProvider
	log *os.File
}

func (a zzAnswer) RoundTrip(r *http.Request) (*http.Response, error) {
	form := url.Values{}
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		form, _ = url.ParseQuery(string(b))
	}
	for k, v := range r.URL.Query() {
		form[k] = v
	}
	action := r.URL.Path
	if h := strings.Split(r.URL.Host, "."); h[0] == "ec2" {
		action = form.Get("Action") + " " + h[1]
	}
	code, body := a.p(action, form)
	if code == 0 {
		return nil, fmt.Errorf("connection reset")
	}
	if code == 200 {
		fmt.Fprintf(a.log, "%s %s\\n", action, form.Encode())
	}
	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), Request: r}, nil
}

// zzCloud runs the command in a process of its own and returns its output,
// its exit status (-1: it did not end) and the requests that were granted.
func zzCloud(t *testing.T, p zzProvider, input string, args ...string) (string, int, []string, string) {
	if d := os.Getenv("ZZDIR"); d != "" {
		f, _ := os.OpenFile(filepath.Join(d, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
		http.DefaultTransport = zzAnswer{p, f}
		http.DefaultClient.Transport = zzAnswer{p, f}
		dispatchCluster(strings.Split(os.Getenv("ZZARGS"), " "))
		os.Exit(0)
	}
	dir := t.TempDir()
	os.Mkdir(filepath.Join(dir, ".ssh"), 0700)
	os.WriteFile(filepath.Join(dir, "cred"), []byte("[pika]\\naws_access_key_id = a\\naws_secret_access_key = b\\n"), 0600)
	c := exec.Command(os.Args[0], "-test.run=TestZZDemo")
	list := filepath.Join(dir, "list.json")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "AWS_") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "ZZDIR="+dir, "ZZARGS="+strings.ReplaceAll(strings.Join(args, " "), "LIST", list), "HOME="+dir, "AWS_SHARED_CREDENTIALS_FILE="+filepath.Join(dir, "cred"))
	c.Stdin = strings.NewReader(input)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	done := make(chan int)
	go func() {
		c.Wait()
		done <- c.ProcessState.ExitCode()
	}()
	code := -1
	select {
	case code = <-done:
	case <-time.After(30 * time.Second):
		c.Process.Kill()
		<-done
	}
	b, _ := os.ReadFile(filepath.Join(dir, "log"))
	l, _ := os.ReadFile(list)
	return out.String(), code, strings.Split(strings.TrimSpace(string(b)), "\\n"), string(l)
}

func zzCount(log []string, prefix, within string) (n int) {
	for _, l := range log {
		if strings.HasPrefix(l, prefix) && strings.Contains(l, within) {
			n++
		}
	}
	return
}

// zzImages is the list of images.
func zzImages(regions ...string) string {
	s := ""
	for _, r := range regions {
		s += `["` + r + `","focal","20.04 LTS","amd64","hvm:ebs-ssd","20220810","<a href=\\\\"x\\\\">ami-` + strings.ReplaceAll(r, "-", "") + `</a>","aki"],` + "\\n"
	}
	return s
}

func zzRegions(regions ...string) string {
	s := "<DescribeRegionsResponse><regionInfo>"
	for _, r := range regions {
		s += "<item><regionName>" + r + "</regionName><regionEndpoint>ec2." + r + "</regionEndpoint></item>"
	}
	return s + "</regionInfo></DescribeRegionsResponse>"
}

func zzInstance(id, code, public, private string) string {
	return "<item><instancesSet><item><instanceId>" + id + "</instanceId><instanceState><code>" + code + "</code></instanceState><ipAddress>" + public + "</ipAddress><privateIpAddress>" + private + "</privateIpAddress></item></instancesSet></item>"
}

func zzInstances(next string, items ...string) string {
	s := "<DescribeInstancesResponse><reservationSet>" + strings.Join(items, "") + "</reservationSet>"
	if next != "" {
		s += "<nextToken>" + next + "</nextToken>"
	}
	return s + "</DescribeInstancesResponse>"
}

func zzRefused(what string) (int, string) {
	return 400, "<Response><Errors><Error><Code>Refused</Code><Message>refused " + what + "</Message></Error></Errors></Response>"
}

// zzReady is a region with key and group.
func zzReady(action string, form url.Values) (int, string) {
	switch strings.Fields(action)[0] {
	case "DescribeKeyPairs":
		return 200, "<DescribeKeyPairsResponse><keySet><item><keyName>k</keyName></item></keySet></DescribeKeyPairsResponse>"
	case "DescribeSecurityGroups":
		return 200, "<DescribeSecurityGroupsResponse><securityGroupInfo><item><groupId>sg</groupId></item></securityGroupInfo></DescribeSecurityGroupsResponse>"
	case "RunInstances":
		return 200, "<RunInstancesResponse></RunInstancesResponse>"
	case "TerminateInstances":
		return 200, "<TerminateInstancesResponse></TerminateInstancesResponse>"
	}
	return 400, "unexpected " + action
}

type zzVultrServer struct{ ID, Location, Tag, Status, State string }

func zzVultrServers(l ...zzVultrServer) string {
	m := map[string]map[string]string{}
	for _, s := range l {
		m[s.ID] = map[string]string{"SUBID": s.ID, "location": s.Location, "tag": s.Tag, "status": s.Status, "server_state": s.State, "main_ip": "192.0.2." + s.ID}
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func zzVultrWorld(action string) (int, string) {
	switch action {
	case "/v1/plans/list":
		return 200, `{"523":{"VPSPLANID":"523","price_per_month":"80.00","vcpu_count":"1","available_locations":[1,2,3]}}`
	case "/v1/regions/list":
		return 200, `{"1":{"DCID":"1","name":"Amsterdam"},"2":{"DCID":"2","name":"Tokyo"},"3":{"DCID":"3","name":"Seoul"},"4":{"DCID":"4","name":"Oslo"}}`
	case "/v1/sshkey/list":
		return 200, `{"k1":{"SSHKEYID":"k1","name":"macOS Testbed"}}`
	case "/v1/os/list":
		return 200, `{"17":{"OSID":17,"name":"Ubuntu 22.04 x64"}}`
	case "/v1/startupscript/list":
		return 200, `{"s1":{"SCRIPTID":"s1","name":"increase-sshmaxsessions"}}`
	}
	return 412, "unexpected " + action
}

'''
def seed(id, edits, body, needs, breaks):
    return dict(id=id, prop="C28", edits=[("testbed/" + f, a, b) for f, a, b in edits], pkg="testbed", demo=CLOUD + "func TestZZDemo(t *testing.T) {\n" + body + "}\n", needs=needs, breaks=breaks)

SEEDS = [
seed("c28-list-lost-update", [("aws.go", """			lock.Lock()
			res = append(res, d...)
			lock.Unlock()
""", """			lock.Lock()
			all := res
			lock.Unlock()
			// keep the regions together without holding the lock while copying
			all = append(all[:len(all):len(all)], d...)
			lock.Lock()
			res = all
			lock.Unlock()
""")], """	regions := []string{}
	for i := 0; i < 40; i++ {
		regions = append(regions, fmt.Sprintf("us-east-%d", i+1))
	}
	world := func(action string, form url.Values) (int, string) {
		f := strings.Fields(action)
		if f[0] == "DescribeRegions" {
			return 200, zzRegions(regions...)
		}
		time.Sleep(20 * time.Millisecond)
		var l []string
		for k := 0; k < 200; k++ {
			l = append(l, zzInstance(fmt.Sprint("i-", f[1], k), "16", "192.0.2.1", "10.0.0.1"))
		}
		return 200, zzInstances("", l...)
	}
	for try := 0; try < 15; try++ {
		out, _, _, list := zzCloud(t, world, "", "status", "-vendor", "aws", "-l", "LIST")
		var got []Server
		json.Unmarshal([]byte(list), &got)
		if len(got) != 8000 {
			t.Fatalf("%d servers are listed instead of 8000; %s", len(got), out)
		}
	}
""", "two regions that answer at the same time", "the servers of a region are missing from the list: read, copy and write of the list are not one step"),

seed("c28-page-without-running", [("aws.go", """				output = append(output, out)
			}
		}
		return true
""", """				output = append(output, out)
			}
		}
		// go on for as long as there are servers
		return len(output) > 0
""")], """	world := func(action string, form url.Values) (int, string) {
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions("us-east-1")
		case "DescribeInstances":
			if form.Get("NextToken") == "" {
				return 200, zzInstances("more", zzInstance("i-1", "48", "", ""))
			}
			return 200, zzInstances("", zzInstance("i-2", "16", "192.0.2.1", "10.0.0.1"))
		}
		return zzReady(action, form)
	}
	out, code, log, _ := zzCloud(t, world, "", "stop", "-y", "-vendor", "aws")
	if code != 0 || zzCount(log, "TerminateInstances us-east-1", "i-2") != 1 {
		t.Fatalf("the running server is not ended: %d %s %v", code, out, log)
	}
""", "a first page of instances none of which is running, and a running one on the next page", "running servers are neither listed nor ended"),

seed("c28-image-of-other-region", [("aws.go", """	tr := escaped + `","focal","20\\.04 LTS","amd64",".+","\\d+","<.+>(ami\\-.+)</a>`
""", """	// the columns are quoted, and there may be spaces between them
	tr := escaped + `.*"focal",.*"20\\.04 LTS",.*"amd64",.*"<.+>(ami\\-.+)</a>`
""")], """	world := func(action string, form url.Values) (int, string) {
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions("us-east-1")
		case "/locator/ec2/releasesTable":
			return 200, zzImages("us-east-12", "us-east-1")
		}
		return zzReady(action, form)
	}
	out, code, log, _ := zzCloud(t, world, "", "start", "-y", "-vendor", "aws")
	if code != 0 || zzCount(log, "RunInstances us-east-1", "ImageId=ami-useast1&") != 1 {
		t.Fatalf("not started from the image of the region: %d %s %v", code, out, log)
	}
""", "two regions of which the name of one begins with that of the other", "servers are started from the image of another region"),

seed("c28-at-least-one", [("aws.go", """		MinCount: aws.Int64(int64(count)),
""", """		MinCount: aws.Int64(1),
""")], """	world := func(action string, form url.Values) (int, string) {
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions("us-east-1")
		case "/locator/ec2/releasesTable":
			return 200, zzImages("us-east-1")
		case "RunInstances":
			if form.Get("MinCount") != "3" || form.Get("MaxCount") != "3" {
				return 200, "<RunInstancesResponse></RunInstancesResponse>"
			}
			return zzRefused("capacity for three")
		}
		return zzReady(action, form)
	}
	out, _, log, _ := zzCloud(t, world, "", "start", "-y", "-vendor", "aws", "-n", "3")
	if zzCount(log, "RunInstances", "") != 0 || !strings.Contains(out, "capacity") {
		t.Fatalf("fewer than the three servers were accepted: %s %v", out, log)
	}
""", "a region that has room for fewer servers than are asked for", "fewer servers than requested are started, and nothing says so"),

seed("c28-stop-shared-error", [("aws.go", """	wg := &sync.WaitGroup{}
	for _, r := range regions {
		wg.Add(1)
		go func(r string) {
			defer wg.Done()
			err := AWSStopServersAtRegion(r, tag)
			if err != nil {
				fmt.Println(err)
			}
		}(r)
	}
	wg.Wait()
	return nil
""", """	wg := &sync.WaitGroup{}
	errs := make(map[error]struct{}, len(regions))
	lock := &sync.Mutex{}
	for _, r := range regions {
		wg.Add(1)
		go func(r string) {
			defer wg.Done()
			err = AWSStopServersAtRegion(r, tag)
			lock.Lock()
			defer lock.Unlock()
			if _, there := errs[err]; !there && err != nil {
				errs[err] = struct{}{}
				fmt.Println(err)
			}
		}(r)
	}
	wg.Wait()
	return nil
""")], """	regions := []string{}
	for i := 0; i < 40; i++ {
		regions = append(regions, fmt.Sprintf("us-east-%d", i+1))
	}
	var gate sync.WaitGroup
	gate.Add(40)
	world := func(action string, form url.Values) (int, string) {
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions(regions...)
		case "DescribeInstances":
			gate.Done()
			gate.Wait() // all answers at once
			return zzRefused("list of " + strings.Fields(action)[1] + ".")
		}
		return zzReady(action, form)
	}
	for try := 0; try < 40; try++ {
		out, _, _, _ := zzCloud(t, world, "", "stop", "-y", "-vendor", "aws")
		for _, r := range regions {
			if !strings.Contains(out, "list of "+r+".") {
				t.Fatalf("nothing says that %s failed: %s", r, out)
			}
		}
	}
""", "two regions that fail, the second one between the assignment of the shared error and its use", "the failure of a region is not reported"),

seed("c28-delete-list-order", [("vultr.go", """		err = c.Server.Delete(context.Background(), s.InstanceID)
		if err != nil {
			fmt.Println("error deleting server: ", err)
			os.Exit(1)
		}
	}
""", """		err = c.Server.Delete(context.Background(), s.InstanceID)
		if err != nil {
			// most likely it is gone already; we will see below
			fmt.Println("error deleting server: ", err)
		}
	}
""")], """	world := func(action string, form url.Values) (int, string) {
		switch action {
		case "/v1/server/list":
			return 200, zzVultrServers(zzVultrServer{"5", "Oslo", "exp", "active", "ok"}, zzVultrServer{"6", "Oslo", "exp", "active", "ok"})
		case "/v1/server/destroy":
			if form.Get("SUBID") == "5" {
				return 412, "cannot"
			}
			return 200, ""
		}
		return zzVultrWorld(action)
	}
	out, code, log, _ := zzCloud(t, world, "", "stop", "-y", "-t", "exp")
	if code == 0 {
		t.Fatalf("a server could not be deleted, but the command succeeds: %s %v", out, log)
	}
""", "a server that cannot be deleted", "the command ends with status 0 although a server goes on running"),

seed("c28-any-answer", [("cluster.go", """	fmt.Scanln(&input)
	if input == "y" || input == "Y" {
""", """	fmt.Scanln(&input)
	if !strings.HasPrefix(strings.ToLower(input), "n") {
""")], """	world := func(action string, form url.Values) (int, string) {
		switch action {
		case "/v1/server/list":
			return 200, zzVultrServers(zzVultrServer{"5", "Oslo", "exp", "active", "ok"})
		case "/v1/server/destroy":
			return 200, ""
		}
		return zzVultrWorld(action)
	}
	out, _, log, _ := zzCloud(t, world, "\\n", "stop", "-t", "exp")
	if zzCount(log, "/v1/server/destroy", "") != 0 {
		t.Fatalf("servers are deleted without a yes: %s %v", out, log)
	}
""", "an empty answer, or none because the input has ended", "servers are created, ended or rebooted without confirmation"),

seed("c28-sort-by-place", [("cluster.go", """	byloc := strings.Compare(s[i].Location, s[j].Location)
	if byloc == 0 {
		return strings.Compare(s[i].ID, s[j].ID) == -1
	} else {
		return byloc == -1
	}
""", """	// numeric IDs compare as numbers: a shorter one is smaller
	byloc := strings.Compare(s[i].Location, s[j].Location)
	if byloc == 0 && len(s[i].ID) != len(s[j].ID) {
		return len(s[i].ID) < len(s[j].ID)
	} else if byloc == 0 {
		return strings.Compare(s[i].ID, s[j].ID) == -1
	} else {
		return byloc == -1
	}
""")], """	world := func(action string, form url.Values) (int, string) {
		if action == "/v1/server/list" {
			return 200, zzVultrServers(zzVultrServer{"9", "Oslo", "exp", "active", "ok"}, zzVultrServer{"10", "Oslo", "exp", "active", "ok"})
		}
		return zzVultrWorld(action)
	}
	out, _, _, list := zzCloud(t, world, "", "status", "-t", "exp", "-l", "LIST")
	if strings.Index(list, `"ID": "10"`) > strings.Index(list, `"ID": "9"`) {
		t.Fatalf("the list is not ordered by ID: %s %s", out, list)
	}
""", "two servers at one location with identifiers of different lengths", "the list is not in the order of the identifiers, so the numbers of servers in experiment files shift"),

seed("c28-reboot-late-add", [("vultr.go", """		wg.Add(1)
		go func(s govultr.Server) {
			defer wg.Done()
			// start a new client
""", """		go func(s govultr.Server) {
			wg.Add(1)
			defer wg.Done()
			// start a new client
""")], """	world := func(action string, form url.Values) (int, string) {
		switch action {
		case "/v1/server/list":
			return 200, zzVultrServers(zzVultrServer{"5", "Oslo", "exp", "active", "ok"}, zzVultrServer{"6", "Oslo", "exp", "active", "ok"})
		case "/v1/server/reboot":
			time.Sleep(50 * time.Millisecond)
			return 200, ""
		}
		return zzVultrWorld(action)
	}
	for try := 0; try < 60; try++ {
		out, _, log, _ := zzCloud(t, world, "", "reboot", "-y", "-t", "exp")
		if zzCount(log, "/v1/server/reboot", "") != 2 {
			t.Fatalf("not every server is rebooted: %s %v", out, log)
		}
	}
""", "main reaching the wait before a goroutine has started", "the command ends before the servers are rebooted"),

seed("c28-image-list-once", [("aws.go", """var AWSImageList string
""", """var AWSImageList string
var AWSImageListOnce sync.Once
"""), ("aws.go", """	if AWSImageList == "" {
		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
		if err != nil {
			return "", err
		}
""", """	var err error
	AWSImageListOnce.Do(func() {
		var resp *http.Response
		resp, err = http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
		if err != nil {
			return
		}
		var body []byte
		defer resp.Body.Close()
		body, err = ioutil.ReadAll(resp.Body)
		if err == nil {
			AWSImageList = string(body)
		}
	})
	if err != nil {
		return "", err
	}
	/*
"""), ("aws.go", """	escaped := strings.ReplaceAll(region, "-", `\\-`)
""", """	*/
	escaped := strings.ReplaceAll(region, "-", `\\-`)
""")], """	n := 0
	var lock sync.Mutex
	world := func(action string, form url.Values) (int, string) {
		lock.Lock()
		defer lock.Unlock()
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions("us-east-1", "us-east-2")
		case "/locator/ec2/releasesTable":
			n++
			if n == 1 {
				time.Sleep(100 * time.Millisecond)
				return 0, ""
			}
			return 200, zzImages("us-east-1", "us-east-2")
		case "RunInstances":
			if form.Get("ImageId") == "" {
				return zzRefused("no image")
			}
		}
		return zzReady(action, form)
	}
	out, _, log, _ := zzCloud(t, func(a string, f url.Values) (c int, b string) { return world(a, f) }, "", "start", "-y", "-vendor", "aws")
	if zzCount(log, "RunInstances", "") != 1 {
		t.Fatalf("the region that could have the list gets no server: %s %v", out, log)
	}
""", "the first fetch of the image list failing while other regions wait", "regions that could fetch the list themselves get no server"),

seed("c28-one-region-stops-all", [("aws.go", """	wg := &sync.WaitGroup{}
	for _, r := range regions {
		wg.Add(1)
		go func(r string) {
			defer wg.Done()
			err := AWSStartInstanceAtRegion(r, count, tag)
			if err != nil {
				fmt.Println(err)
			}
		}(r)
	}
	wg.Wait()
	return nil
""", """	errs := make(chan error)
	for _, r := range regions {
		go func(r string) {
			errs <- AWSStartInstanceAtRegion(r, count, tag)
		}(r)
	}
	var first error
	for range regions {
		if err := <-errs; err != nil {
			fmt.Println(err)
			if first == nil {
				first = err
			}
			break
		}
	}
	return first
""")], """	world := func(action string, form url.Values) (int, string) {
		switch strings.Fields(action)[0] {
		case "DescribeRegions":
			return 200, zzRegions("us-east-1", "us-east-2")
		case "/locator/ec2/releasesTable":
			return 200, zzImages("us-east-1", "us-east-2")
		case "DescribeKeyPairs":
			if strings.HasSuffix(action, "us-east-1") {
				return zzRefused("keys")
			}
			time.Sleep(200 * time.Millisecond)
		}
		return zzReady(action, form)
	}
	out, _, log, _ := zzCloud(t, world, "", "start", "-y", "-vendor", "aws")
	if zzCount(log, "RunInstances us-east-2", "") != 1 {
		t.Fatalf("the failure of one region keeps the other from starting: %s %v", out, log)
	}
""", "a region failing while others are not finished", "the other regions are cut off"),

seed("c28-seoul-filter", [("vultr.go", """			if loc == "seoul" {
				continue	// the dc is slow
			}
			// if we are matching against location
			if location != "" {
				q := strings.ToLower(location)
				if !strings.Contains(loc, q) {
					continue
				}
			}
""", """			// if we are matching against location
			if location != "" {
				q := strings.ToLower(location)
				if !strings.Contains(loc, q) {
					continue
				}
			} else if loc == "seoul" {
				continue	// the dc is slow
			}
""")], """	world := func(action string, form url.Values) (int, string) {
		if action == "/v1/server/create" {
			return 200, `{"SUBID":"1"}`
		}
		return zzVultrWorld(action)
	}
	out, _, log, _ := zzCloud(t, world, "", "start", "-y", "-d", "o")
	if zzCount(log, "/v1/server/create", "DCID=3") != 0 {
		t.Fatalf("a server is created where none should be: %s %v", out, log)
	}
""", "a location filter that matches Seoul", "a server is created in the region that is to be left out"),
]
