package main

// variant is one way of building the worker.
type variant struct {
	main  string
	pkgs  []string
	mods  []string
	flags []string
	env   []string
	real  []string
	stubs []string
}

const riot = "github.com/go-ego/riot"

// All packages of the repository that a worker is built from are instrumented,
// also those that a later version adds.
var riotPkgs = []string{riot, riot + "/"}

var engineReal = []string{"riot (engine, workers, segmentation)", "riot/core (indexer, ranker)", "riot/store (registry, OpenStore)", "riot/types", "riot/utils", "encoding/gob", "go-ego/gse", "go-ego/murmur"}

var engineStubs = []string{"goroutines, channels, select, sync, sync/atomic: simulated by verif.local/sim/dst", "time, log, os, os/signal, runtime, math/rand, gopsutil/mem: stand-ins in verif.local/sim/x",
	"store backend: in-memory simulated disk with injected faults, registered through store.RegisterStore"}

var builds = map[string]variant{
	"engine": {main: "./cmd/worker", pkgs: riotPkgs, real: engineReal, stubs: engineStubs},
	"race":   {main: "./cmd/worker", pkgs: riotPkgs, real: engineReal, stubs: engineStubs, flags: raceFlags, env: raceEnv},
	"full": {main: "./cmd/fullworker", pkgs: riotPkgs, mods: storeMods,
		real: append(append([]string{}, engineReal...), "riot/store backends, goleveldb, bbolt, badger (complete)", "file contents, memory mappings and file locks: real files in a scratch directory"),
		stubs: []string{"goroutines, channels, select, sync, sync/atomic of riot, goleveldb and bbolt: simulated by verif.local/sim/dst (badger's are real)", "time, log, os, os/signal, runtime, math/rand, gopsutil/mem: stand-ins in verif.local/sim/x",
			"os, io/ioutil, syscall, x/sys/unix of the store libraries: verif.local/sim/x/fos, which takes kill and power-loss snapshots; a wrapper registered through store.RegisterStore notes what was acknowledged and injects errors"}},
	"store": {main: "./cmd/storeworker", pkgs: riotPkgs, mods: storeMods,
		real: []string{"riot/store (all backends, OpenStore)", "goleveldb, bbolt, badger (complete)", "file contents, memory mappings and file locks: real files in a scratch directory"},
		stubs: []string{"goroutines, channels, select, sync, sync/atomic of the store, goleveldb and bbolt: simulated by verif.local/sim/dst (badger's are real)",
			"time, log, os/signal, runtime, math/rand: stand-ins in verif.local/sim/x",
			"os, io/ioutil, syscall, x/sys/unix of the libraries: verif.local/sim/x/fos, which counts every change of a file, injects faults and takes kill and power-loss snapshots"}},
	"racenet": {main: "./cmd/networker", pkgs: riotPkgs, real: netReal, stubs: netStubs, flags: raceFlags, env: raceEnv},
	"net":     {main: "./cmd/networker", pkgs: riotPkgs, real: netReal, stubs: netStubs},
}

var (
	netReal  = []string{"riot/net/com, riot/net/http (handlers), riot/net/grpc (servers, clients, distributed search), riot/net/grpc/riot-pb, riot/net/heartb", "riot (engine), riot/core, riot/store, riot/types, riot/utils", "golang/protobuf encoding, encoding/json, net/url, http.Request form parsing"}
	netStubs = []string{"goroutines, channels, select, sync, sync/atomic: simulated by verif.local/sim/dst", "time, context, log, os, os/signal, runtime, math/rand, flag: stand-ins in verif.local/sim/x",
		"google.golang.org/grpc (transport), net/http (client transport), net (listener): verif.local/sim/x/grpc, x/http, x/net, over a simulated network with injected faults",
		"os/exec: commands are recorded and their duration and result drawn, never run", "go-vgo/grpclb (etcd registration): the harness behind its interface; go-vgo/zlog: an empty stand-in",
		"store backend: in-memory simulated disk; peers and the monitored node: simulated far ends"}
	// The simulator's own packages carry no race instrumentation. The compiler
	// then lets them allocate through malloc variants that do not tell the race
	// detector, hence the experiment.
	raceFlags = []string{"-race", "-gcflags=verif.local/sim/...=-race=false -l", "-gcflags=verif.local/sim/x/atomic=-l", "-gcflags=github.com/go-ego/riot/...=-l"}
	raceEnv   = []string{"GOEXPERIMENT=nosizespecializedmalloc"}
)

var storeMods = []string{"github.com/syndtr/goleveldb", "go.etcd.io/bbolt", "github.com/dgraph-io/badger"}

// part is a harness's share of a property's search.
type part struct {
	build, harness string
	weight         int
	nondet         bool
}

type property struct {
	parts           []part
	quick, thorough float64
	rule            string
	assumptions     []string
}

// stored is the engine over the simulated store and over the real backends.
func stored(rule string, as ...string) property {
	p := eng(rule+" Part of the runs use LevelDB, Bolt and Badger over simulated files, with kills and power losses at any step.", as...)
	p.parts = append(p.parts, part{build: "full", harness: "full", weight: 1})
	return p
}

func eng(rule string, as ...string) property {
	return property{parts: []part{{build: "engine", harness: "engine", weight: 1}}, quick: 32, thorough: 600, rule: rule, assumptions: as}
}

const engRule = "Each seed draws an engine configuration, documents, concurrent client operations, faults and a schedule; a run is non-trivial when at least one document was indexed. "

var props = map[string]property{
	"C01": eng(engRule + "Weighted to Flush and to searches right after it."),
	"C02": eng(engRule + "Few documents, re-indexed many times with changing content, tokens, labels and fields."),
	"C03": eng(engRule + "Small buffers, forced updates, Flush from several clients; a run that stops making progress is a violation."),
	"C04": eng(engRule + "Weighted to query forms: labels, text, id filters, logic queries, counting, orderless, over every index type and tokenisation mode."),
	"C05": {parts: []part{{build: "race", harness: "race", weight: 3}, {build: "racenet", harness: "race", weight: 1}}, quick: 45, thorough: 600,
		rule:        "Each seed draws a scenario of the engine (C01-C22), of the core indexer or ranker, or (in the second build) of the network layer and the heartbeat monitor (C18-C21), and a schedule, executed with the race detector compiled into the code under test; the simulator's own hand-overs are hidden from the detector, so only the program's synchronisation orders accesses. A report counts when both accesses are the code under test's. A run is non-trivial when a document was indexed.",
		assumptions: []string{"The race detector keeps a bounded history per memory word, so it can miss a race; it does not report accesses that are ordered."}},
	"C06": eng(engRule + "Weighted to searches that overlap updates."),
	"C07": stored(engRule + "Two or three lives over one store, each closed cleanly, some with another number of shards."),
	"C08": stored(engRule + "Several lives over one store; the process dies at a random step, at a store write or delete (before or after it is durable) or during the recovery scan."),
	"C09": stored(engRule + "Store writes and deletes fail, report failure after taking effect, stall; stores fail to open or close; undecodable records appear."),
	"C10": eng(engRule + "Searches with timeouts against scorers that sleep."),
	"C11": eng(engRule + "Weighted to ranked, paged, reversed searches."),
	"C12": eng(engRule + "At the end the engine is compared with a fresh one given only the live documents."),
	"C13": eng(engRule + "Forced updates awaited without Flush."),
	"C14": eng(engRule + "Weighted to removals; the counters are compared with the operations performed."),
	"C24": eng("Each seed draws two engines of one process, each with a configuration, documents (of the same identifiers and words), concurrent clients and one to three lives over a store of its own, and a schedule over all their goroutines; each is judged as if it were alone. A run is non-trivial when a document was indexed in both."),
	"C15": {parts: []part{{build: "engine", harness: "core", weight: 1}}, quick: 32, thorough: 600,
		rule: "Each seed draws clients, cached and forced additions, removals, lookups and a schedule over one core.Indexer, down to a cache of one document; a run is non-trivial when at least one document was added."},
	"C16": {parts: []part{{build: "engine", harness: "core", weight: 1}}, quick: 32, thorough: 600,
		rule: "Each seed draws clients, additions, removals and rankings and a schedule over one core.Ranker; a run is non-trivial when at least one document was added."},
	"C17": {parts: []part{{build: "store", harness: "store", weight: 1}}, quick: 45, thorough: 600,
		rule: "Each seed draws a backend (LevelDB, Bolt, Badger), how it is opened, one to four lives, each a few concurrent clients on up to twelve keys, bulk data, disk faults, a kill or a power loss at a chosen change of a file, and a schedule over the store's and the database library's goroutines; the history is checked for an order that an atomic map explains. A run is non-trivial when a write was acknowledged.",
		assumptions: []string{
			"None of the three libraries survives a crash or a disk fault while it creates its files; nothing is stored then, so the first creation of a directory is not disturbed.",
			"After an injected disk fault the results of the same process's later operations are not judged, only what a new process finds. Badger is given failing value-log writes and syncs only: it retries other failures for ever, and a short write followed by further use corrupts its log (a defect of the library).",
			"Power loss is decided for Bolt and Badger, which sync every write; LevelDB as opened by the store does not."}},
	"C18": {parts: []part{{build: "net", harness: "dist", weight: 1}}, quick: 35, thorough: 600,
		rule:        "Each seed draws zero to four simulated peers (the node may be one of its own), per-peer and per-request failures, concurrent requests with every form of paging, and a schedule; a run is non-trivial when a request was sent to at least one peer.",
		assumptions: []string{"HTTP requests and answers are delivered as the net/http client promises; the transport itself is a stand-in."}},
	"C19": {parts: []part{{build: "net", harness: "dist", weight: 1}}, quick: 35, thorough: 600,
		rule:        "Each seed draws zero to four simulated peers (the node may be one of its own), per-peer and per-request failures, concurrent requests with logic, id filters and paging, and a schedule; a run is non-trivial when a request was sent to at least one peer.",
		assumptions: []string{"Calls are delivered as grpc promises for non-blocking dials and fail-fast unary calls; the transport itself is a stand-in."}},
	"C20": {parts: []part{{build: "net", harness: "remote", weight: 1}}, quick: 32, thorough: 600,
		rule:        "Each seed draws a node over a simulated disk with one to three lives, concurrent clients that each index, remove and search documents of their own over HTTP, gRPC, the client helpers and locally, lost requests and replies, odd requests, and a schedule; after each life's operations and after each restart the node is compared with a fresh local engine holding the live documents. A run is non-trivial when a document was indexed.",
		assumptions: []string{"Two changes of one document are separated by a Flush, as the engine's own documentation demands.", "HTTP handlers are called with parsed requests; the HTTP server is a stand-in."}},
	"C21": {parts: []part{{build: "net", harness: "heartb", weight: 1}}, quick: 35, thorough: 600,
		rule:        "Each seed draws a history of the monitored node (down, hanging, answering late, with an error or a wrong status, for a number of heartbeats or until a restart), of the restart commands (slow, failing, useless), concurrent /health, /kill and /restart requests, and a schedule, over 20 seconds to two hours of simulated time; the recorded history is searched for an order that a counter explains. A run is non-trivial when a heartbeat failed.",
		assumptions: []string{"Commands are recorded, not run.", "A node counts as not answering when no reply came within 20 simulated seconds; a reply within 500 ms must not count as failed."}},
	"C23": {parts: []part{{build: "net", harness: "disco", weight: 1}}, quick: 25, thorough: 600,
		rule:        "Each seed draws a configuration and command line, a registry that is slow, refuses or fails, a port another process has, clients that search, index and send heartbeats, peers that are slow, hang or are down, signals of both kinds at any moment and several at once, and a schedule; the node runs until it has ended. A run is non-trivial when the node registered.",
		assumptions: []string{"The registry is the harness behind grpclb's interface: what the library itself does is not part of the run.", "The first signal comes at least 100 simulated milliseconds after the node serves and is registered."}},
	"C22": eng(engRule + "Weighted to searches; requests and responses are compared with snapshots."),
}
