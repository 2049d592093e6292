package h

import (
	"github.com/go-ego/riot/types"
	"math"
	"strconv"
	"strings"

	. "verif.local/sim/w"
)

var idPool = []string{"1", "2", "10", "7", "33", "4", "21", "8", "100", "doc-a", "文档", "9", "A", "00", "x y",
	"01", "1 ", "a", "a\x00b", "docs/2020/é?q=1&r=%20#1", longID + "1", longID + "2", longID + "2" + longID + longID}

const longID = "a-rather-long-identifier-of-a-document-that-continues-past-every-round-number-"

// tokVocab and labVocab are the words of the scenario being drawn.
var tokVocab, labVocab = plainToks, plainLabs

var (
	plainToks = []string{"a", "b", "c", "d", "e", "ab"}
	plainLabs = []string{"L1", "L2", "a"}
	oddToks   = []string{"a", "A", "数据", "a b", longID + "1", longID + "2"}
	oddLabs   = []string{"a label of several words", "数据", longID + "2"}
)

// vocab chooses the words.
func (c *EngCfg) vocab(r *Rng) {
	tokVocab, labVocab = plainToks, plainLabs
	if c.Mode == ModeTokens && r.P(15) {
		tokVocab, labVocab = oddToks, oddLabs
	}
}

func (c *EngCfg) genDoc(r *Rng, ver int) *DocSpec {
	d := &DocSpec{Ver: ver, A: float32(r.N(4)), B: float32(r.N(3)), NS: r.In(1, 3), Title: r.PickS("t1", "t2", "")}
	d.Drop = r.P(15)
	if r.P(15) {
		d.Bare = r.In(1, 2)
	}
	switch c.Mode {
	case ModeTokens:
		d.Toks = genToks(r, r.In(0, 4), c.IndexType)
		if r.P(8) {
			d.Toks = denseToks(r)
		}
		if r.P(40) && !c.NoContent {
			d.Content = r.PickS("some text", "other", "x")
		}
	case ModeWords:
		n := r.In(0, 4)
		if r.P(5) {
			n = r.In(6, 20)
		}
		s := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += r.PickS(tokVocab...)
			if c.PinYin && r.P(30) {
				s += r.PickS(gseDict...)
			}
		}
		if r.P(10) {
			s += " "
		}
		if r.P(10) && !c.PinYin {
			s = strings.ToUpper(s)
		}
		d.Content = s
		if r.P(30) {
			d.Toks = genToks(r, r.In(1, 2), c.IndexType)
		}
	case ModeGse:
		n := r.In(0, 4)
		if r.P(5) {
			n = r.In(6, 16)
		}
		if r.P(8) {
			d.Content = stopWord
		}
		for i := 0; i < n; i++ {
			d.Content += r.PickS(gseDict...)
			if r.P(25) {
				d.Content += stopWord
			}
			if c.Using > 1 && r.P(30) {
				d.Content += r.PickS(" ", "ab", "c", " B ")
			}
		}
		if r.P(20) {
			d.Toks = genToks(r, 1, c.IndexType)
		}
		if r.P(8) { // handed in as a token or a label
			d.Toks = append(d.Toks, Tok{T: stopWord, L: []int{r.N(5)}})
		}
		if r.P(8) {
			d.Labels = append(d.Labels, stopWord)
		}
	}
	for _, l := range labVocab {
		if r.P(25) {
			d.Labels = append(d.Labels, l)
		}
	}
	if r.P(4) {
		d.Labels = append(d.Labels, r.PickS("", "L1", "a"))
	}
	if r.P(8) {
		d.A, d.B = float32(r.Pick(1, -5, 1000000000, 16777216))/2, float32(r.Pick(-1, 3))/4
	}
	if c.Wide > 0 && r.P(50) {
		c.widen(r, d)
	}
	return d
}

// widen adds many words, occurrences, labels and much text.
func (c *EngCfg) widen(r *Rng, d *DocSpec) {
	n, i0 := r.In(5, c.Wide), r.N(c.Wide)
	p := r.Pick(0, 0, 200, 32000, 65000, 1<<24, 1<<29)
	for i := 0; i < n; i++ {
		t := Tok{T: wideWord(i0+i, c.Wide)}
		k := r.Pick(0, 1, 1, 1, 1, 2)
		if c.IndexType != types.LocsIndex || i > 0 && i < n/2 {
			k = 1
		}
		if r.N(100) == 0 {
			k = r.In(100, 300)
		}
		for j := 0; j < k; j++ {
			t.L = append(t.L, p)
			p += len(t.T) + r.N(3)
		}
		d.Toks = append(d.Toks, t)
	}
	if r.P(30) {
		for i, n := 0, r.In(1, c.Wide); i < n; i++ {
			d.Labels = append(d.Labels, "l"+strconv.Itoa(i))
		}
	}
	if c.Mode == ModeTokens && !c.NoContent && r.P(30) {
		d.Content = strings.Repeat("text "+strconv.Itoa(d.Ver)+" ", r.Pick(50, 1000, 10000))
	}
}

func wideWord(i, n int) string { return "w" + strconv.Itoa(i%n) }

// wideQuery asks for many words.
func (c *EngCfg) wideQuery(r *Rng, q *Query) {
	words := func() (l []string) {
		n, i0, d := r.Pick(1, 2, 5, 8, 9, 16, 17, 31, 33, 63, 65, 70), r.N(c.Wide), r.Pick(1, 1, 1, 3, c.Wide-1)
		for i := 0; i < n && i < c.Wide; i++ {
			l = append(l, wideWord(i0+i*d, c.Wide))
		}
		return
	}
	q.Text, q.Labels = "", nil
	if len(q.EM) > 0 {
		q.EM = words()
	}
	if len(q.ES) > 0 {
		q.ES = words()
	}
	if len(q.EN) > 0 && r.P(50) {
		q.EN = words()
	}
	if len(q.EM)+len(q.ES) > 0 {
		return
	}
	q.Toks = words()
	if r.P(25) {
		q.Toks = q.Toks[:r.N(2)]
		for i, n := r.N(5), r.In(1, 40); i < n; i++ {
			q.Labels = append(q.Labels, "l"+strconv.Itoa(i))
		}
	}
}

// width decides whether a scenario has such documents.
func (c *EngCfg) width(r *Rng) {
	if r.P(3) {
		c.Wide = r.Pick(12, 40, 70, 130, 300)
	}
}

// denseToks is a text which repeats a few words in any order.
func denseToks(r *Rng) []Tok {
	var out []Tok
	i, k := r.N(len(tokVocab)), r.In(2, 4)
	for j := 0; j < k; j++ {
		out = append(out, Tok{T: tokVocab[(i+j)%len(tokVocab)]})
	}
	p := r.N(4)
	for j, n := 0, r.In(k, 12); j < n; j++ {
		t := &out[r.N(k)]
		if j < k {
			t = &out[j]
		}
		t.L = append(t.L, p)
		p += len(t.T) + r.Pick(0, 0, 1, 1, 2, 7)
	}
	return out
}

func genToks(r *Rng, n, indexType int) []Tok {
	var out []Tok
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		t := r.PickS(tokVocab...)
		if used[t] {
			continue
		}
		used[t] = true
		k := Tok{T: t}
		p := r.N(3)
		m := r.Pick(0, 1, 1, 1, 2, 3)
		for j := 0; j < m; j++ {
			k.L = append(k.L, p)
			p += r.In(1, 9)
		}
		out = append(out, k)
	}
	if len(out) > 1 && r.P(60) {
		// as a text would have them: one after the other
		for i := range out {
			out[i].L = nil
		}
		p := r.N(4)
		for j := r.In(len(out), 3*len(out)+1); j > 0; j-- {
			k := &out[r.N(len(out))]
			k.L = append(k.L, p)
			p += len(k.T) + r.N(6)
		}
	}
	return out
}

// genQuery draws a query; focus weights the rarer forms.
func (c *EngCfg) genQuery(r *Rng, ids []string, focus string) Query {
	q := Query{NoOpts: true}
	term := func() string {
		if (c.Using > 2 || c.PinYin) && r.P(30) {
			return r.PickS("中", "国", "人", "zhongguo", "zg", "zhong", "renkou", "shijie", "s", "ren", "kou", "中国人", "abc", "de", "国人", "chong", "qing")
		}
		if c.Mode == ModeGse && r.P(70) {
			if r.P(6) {
				return stopWord
			}
			return r.PickS(gseDict...)
		}
		if r.P(6) {
			return "nosuch"
		}
		return r.PickS(tokVocab...)
	}
	plain := term
	term = func() string {
		switch r.N(40) {
		case 0, 1:
			return r.PickS(labVocab...)
		case 2:
			return ""
		}
		return plain()
	}
	labs := func() []string {
		l := []string{r.PickS(labVocab...)}
		for r.P(30) && len(l) < 4 {
			l = append(l, r.PickS(labVocab...))
		}
		if r.P(3) {
			l[0] = r.PickS("", "nosuch")
		}
		return l
	}
	terms := func(more int) (l []string) {
		l = []string{term()}
		for r.P(more) && len(l) < 5 {
			l = append(l, term())
		}
		return l
	}
	switch r.N(10) {
	case 0, 1, 2, 3:
		q.Toks = []string{term()}
		if c.IndexType == types.LocsIndex && r.P(40) {
			q.Toks = append(q.Toks, term())
			if r.P(40) {
				q.Toks = append(q.Toks, term())
			}
			if c.Mode != ModeGse && r.P(40) { // different words, in any order
				i, n, d := r.N(len(tokVocab)), r.In(2, 4), r.Pick(1, 5)
				q.Toks = nil
				for j := 0; j < n; j++ {
					q.Toks = append(q.Toks, tokVocab[(i+j*d)%len(tokVocab)])
				}
			}
		}
	case 4:
		q.Toks = []string{term(), term()}
	case 5:
		for n := r.Pick(3, 3, 3, 4, 5, 6); n > 0; n-- {
			q.Toks = append(q.Toks, term())
		}
		if r.P(35) {
			q.Labels = labs()
		}
	case 6:
		q.Labels = labs()
	case 7:
		q.Toks = []string{term()}
		q.Labels = labs()
	case 8:
		if c.Mode == ModeGse {
			q.Text = r.PickS(gseDict...)
			if r.P(50) {
				q.Text += r.PickS(gseDict...)
			}
			switch r.N(12) {
			case 0:
				q.Text += stopWord
			case 1:
				q.Text = stopWord + q.Text
			case 2:
				q.Text = stopWord
			}
		} else {
			q.Text = r.PickS(tokVocab...)
			if r.P(40) {
				q.Text += r.PickS(" ", " ", " ", " ", " ", " ", "  ") + r.PickS(tokVocab...)
			}
			if r.P(15) {
				q.Text = strings.ToUpper(q.Text)
			}
		}
		if r.P(20) {
			q.Toks = []string{term()}
		}
	case 9:
		q.Toks = []string{term()}
	}
	pl := 25
	if focus == "C04" {
		pl = 55
	}
	if r.P(pl) {
		switch r.N(6) {
		case 0:
			q.Must = true
		case 1:
			q.Should = true
		case 2:
			q.Must, q.Should = true, true
		case 3:
			q.Toks, q.Text, q.Labels = nil, "", nil
			q.EM = terms(45)
			if r.P(40) {
				q.EN = terms(25)
			}
			if r.P(30) {
				q.ES = terms(70)
			}
			if r.P(15) { // redundant
				q.Must, q.Should, q.NotIn = r.P(60), r.P(40), len(q.EN) > 0
			}
		case 4:
			q.Toks, q.Text, q.Labels = nil, "", nil
			q.ES = terms(60)
			if r.P(50) {
				q.EN = terms(30)
			}
			if r.P(15) { // redundant
				q.Must, q.Should, q.NotIn = r.P(60), r.P(40), len(q.EN) > 0
			}
		case 5:
			q.Must, q.NotIn = true, r.P(30)
		}
	}
	if r.P(22) {
		q.UseIds = true
		for _, id := range ids {
			if r.P(50) {
				q.Ids = append(q.Ids, id)
			}
			if r.P(8) {
				q.Ids = append(q.Ids, "no"+id)
			}
		}
	}
	if c.Wide > 0 && r.P(50) {
		c.wideQuery(r, &q)
	}
	if r.P(1) { // nothing is asked for
		q.Toks, q.Text, q.Labels, q.EM, q.ES, q.EN = nil, "", nil, nil, nil, nil
	}
	if r.P(8) {
		q.Count = true
	} else if r.P(10) {
		q.Less = true
	}
	po := 40
	if focus == "C11" {
		po = 85
	}
	if r.P(po) {
		q.NoOpts = false
		q.Score = r.Pick(0, 0, 1, 1, 2, 3, 4)
		q.Rev = r.P(35)
		if r.P(50) {
			q.Max = r.In(1, 4)
		}
		if r.P(40) {
			q.Off = r.In(0, 4)
		}
		if n := len(ids); n > 30 && r.P(60) {
			q.Max = r.N(n)
			if r.P(60) {
				q.Off = r.N(n)
			}
		}
		if r.P(6) {
			q.Max = r.Pick(math.MaxInt64, math.MaxInt64-1, math.MaxInt32)
		}
		if r.P(2) {
			q.Off = r.Pick(math.MaxInt64, math.MaxInt32)
		}
		if r.P(3) {
			q.Max = r.Pick(-1, -1, -3, math.MinInt64)
		}
		if r.P(3) {
			q.Off = r.Pick(-1, -1, -2, -9, math.MinInt64)
		}
	}
	if r.P(25) {
		q.API = 1
	}
	return q
}

// bulk adds many documents.
func bulk(r *Rng, ids []string) []string {
	base, step, n := r.Pick(0, 90, 1000), r.Pick(1, 1, 7), r.In(30, r.Pick(60, 140, 300, 600))
	if r.P(2) {
		n = r.Pick(1100, 1500, 2300)
	}
	for i := 0; i < n; i++ {
		ids = append(ids, r.PickS("k", "k", "q")+strconv.Itoa(base+i*step))
	}
	return ids
}

// drawBM25 draws the parameters of the score. (K1 0 and B 1 have no value for some documents.)
func (c *EngCfg) drawBM25(r *Rng) {
	if r.P(30) {
		c.K1, c.BB = []float32{2, 1.2, 0.5, 4}[r.N(4)], []float32{0.75, 0, 0.3, 0.95}[r.N(4)]
	}
}

type engFocus struct {
	store, lives, crash, faults, force, reindex, unordered int
}

// Gen draws a scenario.
func (h EngineH) Gen(prop string, seed uint64) *Scenario {
	if prop == "C24" {
		return h.genTwo(seed)
	}
	r := NewRng(seed)
	sc := &Scenario{Harness: "engine", Property: prop, Seed: seed}
	c := EngCfg{Lives: 1}
	c.Shards = r.Pick(1, 1, 2, 2, 3)
	c.Gse = r.Pick(1, 1, 2)
	c.IdxBuf = r.Pick(1, 1, 2, 3)
	c.RankBuf = r.Pick(1, 1, 2)
	c.IdxThr = r.Pick(1, 1, 2)
	c.RankThr = r.Pick(1, 1, 2)
	c.Cache = r.Pick(1, 2, 2, 3, 4, 6, 100)
	c.IndexType = r.Pick(0, 1, 1, 2, 2)
	c.Mode = r.Pick(ModeTokens, ModeTokens, ModeTokens, ModeWords, ModeGse)
	if c.Mode == ModeWords {
		c.Using = r.Pick(0, 0, 0, 4, 5, 6)
		c.PinYin = r.P(15)
	} else if c.Mode == ModeGse {
		c.Using = r.Pick(0, 0, 0, 1, 1, 3, 4, 5, 6)
		c.PinYin = r.P(20)
		c.Phrase = c.PinYin && r.P(40)
		c.GseMode = r.P(25)
		c.Hmm = r.P(20)
	}
	c.IDOnly = r.P(15)
	c.K1, c.BB = 2.0, 0.75
	c.drawBM25(r)
	if r.P(40) {
		c.DefScore = r.Pick(1, 1, 2, 3, 4)
	}
	if r.P(20) {
		c.DefRev, c.DefNil = r.P(40), r.P(50)
		c.DefOff, c.DefMax = r.Pick(0, 0, 1, 2, -1), r.Pick(0, 0, 2, 5, -1)
	}
	c.StoreShards = r.Pick(1, 2, 3)
	c.Unordered = r.P(25)
	nClients := r.Pick(1, 2, 2, 3)
	nDocs := r.In(2, 8)
	opsPer := r.In(3, 12)
	wForce, wAwait, wRemove, wFlush, wSearch, wIndex := 10, 0, 14, 12, 26, 44
	wTmo, slowPct := 3, 0
	switch prop {
	case "C01":
		wFlush = 18
		c.Unordered = c.Unordered && r.P(50)
	case "C02":
		wIndex, nDocs = 60, r.In(1, 4)
	case "C03":
		c.Unordered = r.P(70)
		c.Cache = r.Pick(1, 1, 2, 3)
		wForce, wFlush = 35, 15
		nClients = r.Pick(2, 3, 4)
		opsPer = r.In(4, 16)
		c.Store = r.P(25)
		if r.P(35) { // late answers of slow shards
			wTmo, slowPct, wSearch = 50, 50, 35
		}
	case "C04":
		wSearch, wIndex = 20, 45
	case "C06":
		wSearch, wFlush, nClients = 50, 8, r.Pick(2, 3, 3)
	case "C10":
		wTmo, slowPct, wSearch = 60, 60, 40
		c.IDOnly = r.P(25)
	case "C11":
		wSearch, nDocs = 30, r.In(4, 9)
		if r.P(40) {
			c.Shards = 1
		}
	case "C12":
		c.Diff = true
		c.DefScore = r.Pick(0, 0, 0, 1)
		c.Unordered = false
		c.IndexType = r.Pick(1, 1, 2)
		wRemove, wIndex = 22, 45
		if c.Shards > 1 { // the shard depends on the first content of a document
			c.Mode, c.NoContent = ModeTokens, true
			c.Using, c.PinYin, c.Phrase, c.GseMode, c.Hmm = 0, false, false, false, false
		}
	case "C13":
		wForce, wAwait = 60, 1
		c.Unordered = false
		wFlush = 8
	case "C14":
		wRemove = 22
	case "C22":
		wSearch = 45
	case "C07", "C08", "C09", "C21":
		c.Store = true
	}
	if prop == "C01" || prop == "C14" || prop == "C06" {
		c.Store = r.P(25)
	}
	switch prop {
	case "C07":
		c.Lives = r.Pick(2, 2, 3)
		opsPer = r.In(2, 8)
	case "C08":
		c.Lives = r.Pick(2, 2, 3, 3)
		opsPer = r.In(2, 8)
	case "C09":
		c.Lives = r.Pick(1, 2)
		opsPer = r.In(2, 9)
		c.StallMs = r.Pick(5, 500, 5000)
	}
	if c.Lives > 1 && r.P(30) {
		for i := 0; i < c.Lives; i++ {
			c.ReShard = append(c.ReShard, r.In(1, 3))
		}
	}
	c.defaults(prop, r)
	c.vocab(r)
	switch prop {
	case "C03", "C10":
	default:
		c.width(r)
	}
	switch prop {
	case "C07":
		c.NoFinalFlush = r.P(35)
	case "C08", "C09":
		c.NoFinalFlush = r.P(20)
	}
	ids := append([]string(nil), idPool...)
	for i := len(ids) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ids[i], ids[j] = ids[j], ids[i]
	}
	ids = ids[:nDocs]
	small := len(ids)
	switch prop { // many documents: long postings, full caches, long pages
	case "C03", "C10":
	default:
		if r.P(4) && c.Wide == 0 {
			ids = bulk(r, ids)
		}
	}
	ver := 0
	var shared []Query
	for life := 0; life < c.Lives; life++ {
		for cl := 0; cl < nClients; cl++ {
			var mine []string
			for i, id := range ids {
				if i%nClients == cl {
					mine = append(mine, id)
				}
			}
			last := map[string]string{} // last unflushed op kind on a doc
			add := func(o Op) {
				o.Life, o.Client = life, cl
				sc.Ops = append(sc.Ops, o)
			}
			flush := func() {
				add(Op{Kind: "flush"})
				for _, d := range mine {
					if last[d] != "" && r.P(40) {
						add(Op{Kind: "probe", Doc: d})
					}
				}
				last = map[string]string{}
			}
			// free tells whether op kind k may follow on doc d without a Flush
			free := func(d, k string) bool {
				l := last[d]
				if l == "" || l == k && k == "remove" {
					return true
				}
				if l == "index" && k == "index" {
					return c.Gse == 1 || c.Unordered
				}
				return c.Unordered
			}
			if life == 0 {
				for i, id := range ids {
					if i >= small && i%nClients == cl && r.P(90) {
						ver++
						add(Op{Kind: "index", Doc: id, Spec: c.genDoc(r, ver), N: r.N(2)})
						last[id] = "index"
					}
				}
			}
			for n := 0; n < opsPer; n++ {
				w := r.N(wIndex + wRemove + wFlush + wSearch + 8)
				switch {
				case w < wIndex && len(mine) > 0:
					d := mine[r.N(len(mine))]
					if !free(d, "index") {
						flush()
					}
					ver++
					o := Op{Kind: "index", Doc: d, Spec: c.genDoc(r, ver), Force: r.P(wForce), N: r.N(2)}
					add(o)
					last[d] = "index"
					if o.Force && wAwait > 0 && r.P(60) {
						add(Op{Kind: "await", Doc: d})
					}
				case w < wIndex+wRemove && len(mine) > 0:
					d := mine[r.N(len(mine))]
					if !free(d, "remove") {
						flush()
					}
					o := Op{Kind: "remove", Doc: d, Force: r.P(wForce)}
					add(o)
					last[d] = "remove"
					if o.Force && wAwait > 0 && r.P(60) {
						add(Op{Kind: "await", Doc: d})
					}
				case w < wIndex+wRemove+wFlush:
					flush()
				case w < wIndex+wRemove+wFlush+wSearch:
					q := c.genQuery(r, ids, prop)
					c.tmo(r, &q, wTmo, slowPct)
					switch x := r.N(100); {
					case x < 15 && len(shared) > 0:
						q = shared[r.N(len(shared))]
					case x < 30:
						q.Share = true
						shared = append(shared, q)
					case x < 45:
						q.Dirty = true
					}
					add(Op{Kind: "search", Q: &q})
				default:
					switch r.N(6) {
					case 0:
						add(Op{Kind: "has", Doc: ids[r.N(len(ids))]})
					case 1:
						add(Op{Kind: "count"})
					case 2:
						add(Op{Kind: "sleep", N: r.In(0, 3)})
					case 3:
						if c.Store {
							add(Op{Kind: r.PickS("ids", "alldocs", "hasdb"), Doc: ids[r.N(len(ids))]})
						} else {
							add(Op{Kind: "count"})
						}
					default:
						add(Op{Kind: "yield", N: r.In(1, 4)})
					}
				}
			}
		}
	}
	nq := r.In(5, 12)
	for i := 0; i < nq; i++ {
		q := c.genQuery(r, ids, prop)
		c.tmo(r, &q, wTmo/2, 0)
		c.Queries = append(c.Queries, q)
	}
	sc.Sched = GenSched(r, 3000000+100000*uint64(len(ids)+c.Wide))
	// faults
	switch prop {
	case "C08":
		for life := 0; life < c.Lives-1; life++ {
			if r.P(12) {
				continue
			}
			k := r.PickS("crash", "crash", "crash", "crash_set_before", "crash_set_after", "crash_del_before", "crash_del_after", "crash_scan")
			f := Fault{Kind: k, Life: life}
			switch k {
			case "crash":
				f.At = 1 << uint(r.In(5, 14))
				f.At += r.N(f.At)
			case "crash_scan":
				f.Life = r.In(1, c.Lives-1)
				if f.Life == c.Lives-1 {
					f.Kind, f.At = "crash", 200+r.N(8000)
					f.Life = life
				} else {
					f.At = r.N(4)
				}
			default:
				f.At = r.N(8)
			}
			sc.Faults = append(sc.Faults, f)
		}
		if r.P(20) {
			sc.Faults = append(sc.Faults, Fault{Kind: "garbage", Life: c.Lives - 1, At: r.N(3)})
		}
		if r.P(20) {
			sc.Faults = append(sc.Faults, Fault{Kind: r.PickS("set_error", "set_error_after", "stall", "del_error"), Life: 0, At: r.N(8)})
		}
	case "C09":
		n := r.In(1, 5)
		for i := 0; i < n; i++ {
			f := Fault{Kind: r.PickS("set_error", "set_error", "set_error_after", "del_error", "stall", "stall", "close_error"), Life: r.N(c.Lives), At: r.N(12), N: r.Pick(0, 0, 1, 4)}
			sc.Faults = append(sc.Faults, f)
		}
		if r.P(10) {
			sc.Faults = append(sc.Faults, Fault{Kind: "open_error", Life: c.Lives - 1, At: r.N(3)})
		}
		if r.P(25) && c.Lives > 1 {
			sc.Faults = append(sc.Faults, Fault{Kind: "garbage", Life: 1, At: r.N(3)})
		}
	}
	for _, f := range sc.Faults {
		if f.Kind == "stall" && c.StallMs == 0 {
			c.StallMs = r.Pick(5, 100)
		}
	}
	if prop == "C10" {
		sc.Sched.Warp = 0
		sc.Sched.Cost = int64(r.Pick(50, 200))
		if sc.Sched.Strategy >= 2 {
			sc.Sched.Strategy = 1
		}
	} else if wTmo > 0 {
		for _, o := range sc.Ops {
			if o.Q != nil && o.Q.Tmo > 0 {
				sc.Sched.Warp = 0
				if sc.Sched.Cost > 200 {
					sc.Sched.Cost = 200
				}
			}
		}
		for _, q := range c.Queries {
			if q.Tmo > 0 {
				sc.Sched.Warp = 0
				if sc.Sched.Cost > 200 {
					sc.Sched.Cost = 200
				}
			}
		}
	}
	sc.SetCfg(&c)
	return sc
}

// tmo gives some queries a timeout and a slow scorer.
func (c *EngCfg) tmo(r *Rng, q *Query, pct, slowPct int) {
	if !r.P(pct) {
		return
	}
	q.Tmo = r.Pick(1, 5, 20, 100, 1000, 100000)
	if r.P(4) { // for ever, in effect
		q.Tmo = r.Pick(1<<40, 1<<43, 9223372036854, 1<<60, math.MaxInt64)
	}
	if r.P(slowPct) && !q.Count && !q.Less {
		q.NoOpts = false
		if q.Score == 0 {
			q.Score = r.In(1, 4)
		}
		q.Slow = r.Pick(1, 10, 60, 400, 3000)
	}
}

// genTwo draws two engines that live in one process.
func (h EngineH) genTwo(seed uint64) *Scenario {
	r := NewRng(seed ^ 0x24c24c24)
	var two [2]*Scenario
	meet, phrases, first := r.P(30), r.P(8), r.N(2)
	for i := range two {
		sc := h.Gen(r.PickS("C01", "C01", "C02", "C04", "C06", "C07", "C07", "C11", "C12", "C14", "C22"), seed+uint64(i)<<40)
		if meet {
			sc = h.Gen("C07", seed+uint64(i)<<40)
		}
		var c EngCfg
		sc.GetCfg(&c)
		for k := uint64(1); phrases && c.Mode != ModeGse; k++ {
			sc = h.Gen("C06", seed+uint64(i)<<40+k<<48)
			c = EngCfg{}
			sc.GetCfg(&c)
		}
		c.Def = 0 // the defaults' stand-ins are the process's
		c.Meet = meet
		if c.Mode == ModeGse {
			c.Dict = r.N(2)
			if phrases {
				c.PinYin, c.Phrase, c.Dict = true, true, (first+i)%2
			}
		}
		if i > 0 {
			c.Folder = "2"
		}
		sc.SetCfg(&c)
		sc.Property = "C24"
		two[i] = sc
	}
	a, b := two[0], two[1]
	a.Seed, b.Seed = seed, seed
	a.Also = b
	a.Sched.MaxSteps += b.Sched.MaxSteps
	if b.Sched.Warp == 0 {
		a.Sched.Warp = 0
	}
	if b.Sched.Cost < a.Sched.Cost {
		a.Sched.Cost = b.Sched.Cost
	}
	return a
}
