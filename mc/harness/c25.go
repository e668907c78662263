package main

import (
	"fmt"
	"os"
	"syscall"
	"time"

	"github.com/fwhezfwhez/tcpx"
	"verifmc/vs"
)

// C25: BeforeExit.

func init() {
	register(&Prop{
		ID:          "C25",
		Assumptions: []string{"BeforeExit is called once", "its functions return and do not panic"},
		Scenarios: []*Scenario{
			{
				Name: "exit", Desc: "signals at any moment after BeforeExit returned, one or two, while clients are served: the functions run once, in order, and the process then exits with code 0",
				N: n(len(c25sigs)*2, len(c25sigs)*2), Run: c25exit, AllowExit: true,
				Label: func(c int) string { return fmt.Sprint(c25sigs[c/2]) },
				Specs: specs(pol(Spec{D: 1, Fine: true}, Spec{D: 2}), pol(Spec{D: 2, Fine: true, Shards: 4}, Spec{D: 3, Shards: 4})),
			},
			{
				Name: "no-signal", Desc: "without a signal the functions never run and the server serves on",
				N: one, Run: c25none,
				Specs: specs(pol(Spec{D: 2}), pol(Spec{D: 2, Fine: true})),
			},
		},
	})
}

var c25sigs = [][]os.Signal{
	{syscall.SIGINT}, {syscall.SIGTERM}, {syscall.SIGQUIT},
	{syscall.SIGINT, syscall.SIGTERM}, {syscall.SIGTERM, syscall.SIGTERM}, {syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM},
}

func c25exit(t *T, cfg int) {
	sigs, slow := c25sigs[cfg/2], cfg%2 == 1
	srv := newSrv()
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	var ran bag
	code := -1
	vs.OnExit = func(c int) {
		if code < 0 {
			code = c
			ran.add("exit")
		}
	}
	t.after = append(t.after, func() {
		vs.OnExit = nil
		if t.Failed {
			return
		}
		t.Outcome("%s %d", ran.seq(), code)
		if got := ran.seq(); got != "f1,f1-,f2,f2-,f3,f3-,exit" || code != 0 {
			t.Fail("after %v: %s, exit code %d", sigs, got, code)
		}
	})
	f := func(name string) func() {
		return func() {
			ran.add("%s", name)
			if slow {
				vs.Sleep(time.Second)
			} else {
				vs.Yield()
			}
			ran.add("%s-", name)
		}
	}
	srv.BeforeExit(f("f1"), f("f2"), f("f3"))
	vs.GoNamed("signals", func() {
		for _, s := range sigs {
			if !vs.Raise(s) {
				t.Fail("%v would kill the process: it is not caught", s)
				return
			}
		}
	})
	serve(srv, "tcp", addr)
	if c := dial("tcp", addr); c != nil {
		c.Write(msg(1, "x"))
	}
	vs.WaitIdle()
	vs.Sleep(10 * time.Second)
	vs.WaitIdle()
	t.Fail("after %v the process does not exit: %s", sigs, ran.seq())
}

func c25none(t *T, _ int) {
	srv := newSrv()
	srv.AddHandler(1, func(c *tcpx.Context) { c.JSON(2, bodyOf(c)) })
	var ran bag
	srv.BeforeExit(func() { ran.add("f") })
	serve(srv, "tcp", addr)
	c := dial("tcp", addr)
	vs.WaitIdle()
	if vs.Raise(syscall.SIGUSR1) {
		t.Fail("SIGUSR1 is caught")
		return
	}
	c.Write(msg(1, "x"))
	vs.WaitIdle()
	vs.Sleep(time.Hour)
	vs.WaitIdle()
	if fs, ok := replies(c); !ok || len(fs) != 1 || len(ran.l) > 0 {
		t.Fail("without a signal: %d functions ran, %d replies", len(ran.l), len(fs))
	}
}
