package hn

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"

	"verif.local/sim/dst"
	"verif.local/sim/h"
	. "verif.local/sim/w"
	xgrpc "verif.local/sim/x/grpc"
	xos "verif.local/sim/x/os"
)

// Words of the generated texts: the dictionary of the segmenter, and words it
// does not know.
var words = []string{"中国", "人口", "搜索", "引擎", "世界", "数据", "存储", "网络"}

var dictDone string

func dict() string {
	p := filepath.Join(Scratch, "netdict.txt")
	if dictDone != p {
		var b bytes.Buffer
		for i, w := range words {
			fmt.Fprintf(&b, "%s %d n\n", w, 100+i)
		}
		if err := os.WriteFile(p, b.Bytes(), 0o644); err != nil {
			panic(err)
		}
		dictDone = p
	}
	return p
}

// NodeCfg configures the node under test.
type NodeCfg struct {
	Using, Shards, StoreShards int
	MaxOut, OffDef             int
	Urls, Dist                 []string
	Stop                       bool `json:",omitempty"` // with stop words
}

const (
	grpcPort = ":50041"
	distPort = 50051
	selfPort = ":50701"
	selfURL  = "http://localhost:8080"
)

func (c *NodeCfg) conf() com.Config {
	conf := com.Config{
		Engine: com.Engine{Using: c.Using, NumShards: c.Shards, StoreShards: c.StoreShards, StoreEngine: "sim", StoreFolder: filepath.Join(Scratch, "netdb"),
			OutputOffset: c.OffDef, MaxOutputs: c.MaxOut, GseDict: dict()},
		Etcd: com.Etcd{Addr: "http://127.0.0.1:2379", SverName: "riot_service", Port: []int{distPort}},
		Rpc:  com.Rpc{GrpcPort: []string{grpcPort}, DistPort: append([]string(nil), c.Dist...)},
		Url:  append([]string(nil), c.Urls...),
	}
	if c.Stop {
		conf.Engine.StopTokenFile = stopFile()
	}
	return conf
}

var stopWords = []string{"la", "世界"}

func stopFile() string {
	p := filepath.Join(Scratch, "netstop.txt")
	if err := os.WriteFile(p, []byte(strings.Join(stopWords, "\n")+"\n"), 0o644); err != nil {
		panic(err)
	}
	return p
}

// node is one life of the node under test.
type node struct {
	cfg  NodeCfg
	g    *dst.Group
	disk *h.Disk
}

// startNode boots the node the way data/riot/main.go does.
func startNode(name string, cfg NodeCfg, disk *h.Disk, ports ...string) *node {
	dst.ResetGlobals()
	n := &node{cfg: cfg, disk: disk, g: dst.NewGroup(name)}
	disk.Release()
	h.SetDisk(n.g, disk)
	conf := cfg.conf()
	dst.GoIn(n.g, "boot", func() { rpc.InitEngine(conf) }).Join()
	for _, p := range ports {
		p := p
		if p == "etcd" {
			dst.GoIn(n.g, "erpc", func() { rpc.InitErpc(0) })
		} else {
			dst.GoIn(n.g, "grpc"+p, func() { rpc.InitGrpc(p) })
		}
	}
	for _, p := range ports {
		if p == "etcd" {
			p = fmt.Sprintf(":%d", distPort)
		}
		for i := 0; !xgrpc.Serving(p); i++ {
			if i > 2000 {
				dst.Fail("boot", "the node does not listen on %s", p)
			}
			dst.Sleep(time.Millisecond)
		}
	}
	return n
}

// run executes f on the node and waits for it.
func (n *node) run(name string, f func()) { dst.GoIn(n.g, name, f).Join() }

func resetSeams() {
	dst.ResetGlobals()
	h.ForgetDisks()
	xos.Escapes, xos.MkdirFault = nil, nil
	xgrpc.Open = map[*dst.Group]int{}
	xgrpc.Net, xgrpc.Observe, xgrpc.Up = nil, nil, nil
}
