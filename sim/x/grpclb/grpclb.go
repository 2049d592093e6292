// Package grpclb stands in for go-vgo/grpclb: the registry is the harness.
package grpclb

import "time"

// OnRegister and OnUnRegister, when set, decide what the registry does; they run
// in the caller's task and may take their time.
var (
	OnRegister   func(o Opt) error
	OnUnRegister func() error
)

// Prefix of the registry's keys.
var Prefix = "etcd3_naming"

// Opt is grpclb.Opt.
type Opt struct {
	Name     string
	Host     string
	Port     int
	Target   string
	Interval time.Duration
	Ttl      int
}

func Register(name, host string, port int, target string, interval time.Duration, ttl int, args ...int) error {
	return Registry(Opt{name, host, port, target, interval, ttl}, args...)
}

func Registry(o Opt, args ...int) error {
	if OnRegister != nil {
		return OnRegister(o)
	}
	return nil
}

func UnRegister() error {
	if OnUnRegister != nil {
		return OnUnRegister()
	}
	return nil
}
