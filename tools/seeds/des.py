HEAD = '''package main

import (
	"fmt"
	"os"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

type got struct {
	p  interface{}
	at time.Duration
}
type mod struct {
	log  []got
	send map[interface{}][]des.OutgoingMessage
}

func (m *mod) HandleMessage(p any, from des.Module, at time.Duration) []des.OutgoingMessage {
	m.log = append(m.log, got{p, at})
	return m.send[p]
}

func bad(f string, a ...interface{}) {
	fmt.Printf("BROKEN: "+f+"\\n", a...)
	os.Exit(1)
}

func main() {
%s
}
'''
SEEDS = [
 dict(id="c15-des-fifo", prop="C15", edits=[("des/simulator.go", "		return pq[i].seq < pq[j].seq\n", "		return pq[i].seq < pq[j].seq && pq[i].to == pq[j].to\n")],
  needs="three or more messages for different modules arriving at the same time", breaks="messages of equal arrival time are delivered in another order than scheduled",
  demo=HEAD % '''	s := &des.Simulator{}
	a, b := &mod{}, &mod{}
	var order []int
	_ = order
	rec := &mod{}
	_ = rec
	for i := 0; i < 40; i++ {
		to := a
		if i%3 == 1 {
			to = b
		}
		s.ScheduleMessage(des.OutgoingMessage{Payload: i, To: to, Delay: 5}, a)
	}
	s.Run()
	for _, m := range []*mod{a, b} {
		for i := 1; i < len(m.log); i++ {
			if m.log[i].p.(int) < m.log[i-1].p.(int) {
				bad("message %v after %v", m.log[i].p, m.log[i-1].p)
			}
		}
	}'''),
 dict(id="c16-des-horizon-strict", prop="C16", edits=[("des/simulator.go", "	for !s.Drained() && s.time <= t {\n", "	for !s.Drained() && s.time < t {\n")],
  needs="several messages arriving exactly at the horizon", breaks="messages arriving at the horizon after the first one stay queued",
  demo=HEAD % '''	s := &des.Simulator{}
	a := &mod{}
	for i := 0; i < 3; i++ {
		s.ScheduleMessage(des.OutgoingMessage{Payload: i, To: a, Delay: 5}, a)
	}
	s.RunUntil(5)
	if len(a.log) != 3 {
		bad("only %d of 3 messages arriving at the horizon were delivered", len(a.log))
	}'''),
 dict(id="c15-des-self", prop="C15", edits=[("des/simulator.go", "		s.ScheduleMessage(v, m.to)\n", "		sender := m.to\n		if v.To == nil && len(nm) > 1 {\n			sender = m.from\n		}\n		s.ScheduleMessage(v, sender)\n")],
  needs="a handler that returns a message to itself among several", breaks="the self-addressed message goes to the module that triggered the handler",
  demo=HEAD % '''	s := &des.Simulator{}
	a, b := &mod{}, &mod{}
	b.send = map[interface{}][]des.OutgoingMessage{"go": {{Payload: "x", To: nil, Delay: 1}, {Payload: "y", To: a, Delay: 1}}}
	s.ScheduleMessage(des.OutgoingMessage{Payload: "go", To: b, Delay: 1}, a)
	s.Run()
	if len(a.log) != 1 || len(b.log) != 2 {
		bad("a got %v, b got %v", a.log, b.log)
	}'''),
]
