package h

import (
	"encoding/gob"
	"math"
	"sort"
	"strings"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gpy/phrase"
	"github.com/go-ego/riot/types"

	"verif.local/sim/dst"
	. "verif.local/sim/w"
	xtime "verif.local/sim/x/time"

	"time"
)

// Fields is the scoring payload of the generated documents.
type Fields struct {
	Ver  int
	A, B float32
	Drop bool
	NS   int
}

// Attr is the attribute payload.
type Attr struct {
	Ver   int
	Title string
}

func init() {
	gob.Register(Fields{})
	gob.Register(Attr{})
}

// dataOf makes the engine's document.
func dataOf(d *DocSpec) types.DocData {
	var toks []types.TokenData
	for _, t := range d.Toks {
		toks = append(toks, types.TokenData{Text: t.T, Locations: cpInts(t.L)})
	}
	x := types.DocData{Content: d.Content, Tokens: toks, Labels: cp(d.Labels)}
	if d.Bare != 1 {
		x.Fields = Fields{Ver: d.Ver, A: d.A, B: d.B, Drop: d.Drop, NS: d.NS}
	}
	if d.Bare != 2 {
		x.Attri = Attr{Ver: d.Ver, Title: d.Title}
	}
	return x
}

func isLogic(q *Query) bool {
	kw := len(q.Toks)+len(q.Labels) > 0 || q.Text != ""
	return (kw && (q.Must || q.Should || q.NotIn)) || len(q.EM) > 0 || len(q.ES) > 0
}

// scorer 1 ranks by the document's fields.
type scorer struct {
	kind int
	slow int
}

func (s scorer) Score(d types.IndexedDoc, fields interface{}) []float32 {
	dst.Y(0)
	if s.slow > 0 {
		xtime.Sleep(time.Duration(s.slow) * time.Millisecond)
	}
	return fieldScore(s.kind, fields)
}

func fieldScore(kind int, fields interface{}) []float32 {
	f, ok := fields.(Fields)
	if !ok { // a document without fields
		if kind == 2 || kind == 4 {
			return []float32{-1}
		}
		return nil
	}
	switch kind {
	case 2: // keeps every document, one score
		return []float32{f.A}
	case 3:
		if f.Drop {
			return nil
		}
		return []float32{f.A, f.B, float32(f.Ver)}
	case 4: // score vectors of different lengths
		v := []float32{f.A, f.B, 1}
		n := f.NS
		if n < 1 || n > 3 {
			n = 1
		}
		return v[:n]
	default:
		if f.Drop {
			return []float32{}
		}
		return []float32{f.A, f.B}
	}
}

// reqOf makes the engine's request.
func reqOf(q *Query) types.SearchReq {
	r := types.SearchReq{Text: q.Text, Tokens: cp(q.Toks), Labels: cp(q.Labels),
		Timeout: q.Tmo, CountDocsOnly: q.Count, Orderless: q.Less}
	if q.UseIds {
		r.DocIds = map[string]bool{}
		for i, d := range q.Ids {
			r.DocIds[d] = i%2 == 0 // values are to be ignored
		}
	}
	r.Logic = types.Logic{Must: q.Must, Should: q.Should, NotIn: q.NotIn,
		Expr: types.Expr{Must: cp(q.EM), Should: cp(q.ES), NotIn: cp(q.EN)}}
	if !q.NoOpts {
		o := &types.RankOpts{ReverseOrder: q.Rev, OutputOffset: q.Off, MaxOutputs: q.Max}
		if q.Score > 0 {
			o.ScoringCriteria = scorer{kind: q.Score, slow: q.Slow}
		}
		r.RankOpts = o
	}
	return r
}

const tail = "behind the end of a caller's slice"

// cp makes a slice with room behind its end that nobody else may use.
func cp(s []string) []string {
	if s == nil {
		return nil
	}
	o := make([]string, 0, len(s)+3)
	o = append(o, s...)
	return append(o, tail, tail, tail)[:len(s)]
}

// tails tells whether the room behind the slices is untouched.
func tails(ss ...[]string) bool {
	for _, s := range ss {
		for _, x := range s[len(s):cap(s)] {
			if x != tail {
				return false
			}
		}
	}
	return true
}

func cpInts(s []int) []int {
	if s == nil {
		return nil
	}
	o := make([]int, 0, len(s)+2)
	o = append(o, s...)
	return append(o, -77, -77)[:len(s)]
}

// docTails tells the same of a document.
func docTails(d types.DocData) bool {
	ok := tails(d.Labels)
	for _, t := range d.Tokens[len(d.Tokens):cap(d.Tokens)] {
		ok = ok && t.Text == "" && t.Locations == nil
	}
	for _, t := range d.Tokens {
		for _, l := range t.Locations[len(t.Locations):cap(t.Locations)] {
			ok = ok && l == -77
		}
	}
	return ok
}

// ---- tokens of a document under an engine configuration

// TokMap is token -> locations (nil or empty for labels).
type TokMap map[string][]int

// split mirrors the splitting of content into words or characters: every one,
// and every concatenation from the start; with more, also every concatenation
// that starts after the current one.
func (c *EngCfg) split(words []string, more bool) (TokMap, int) {
	m := TokMap{}
	n := 0
	acc := ""
	put := func(t string) {
		if !c.stop(t) {
			n++
			m[t] = append(m[t], n)
		}
	}
	for i, w := range words {
		if w == "" {
			continue
		}
		put(w)
		acc += w
		put(acc)
		if more {
			rest := ""
			for _, x := range words[i+1:] {
				rest += x
				put(rest)
			}
		}
	}
	return m, n
}

func (c *EngCfg) stop(t string) bool {
	return c.Mode == ModeGse && c.Def&DefCtor == 0 && t == c.stopText()
}

func (c *EngCfg) stopText() string {
	if c.Dict > 0 {
		return stopWord2
	}
	return stopWord
}

func (c *EngCfg) segs(content string, m TokMap) int {
	segs := c.seg().ModeSegment([]byte(content), c.GseMode)
	for _, s := range segs {
		if t := s.Token().Text(); !c.stop(t) {
			m[t] = append(m[t], s.Start())
		}
	}
	return len(segs)
}

func (c *EngCfg) cut(text string) (out []string) {
	l := c.seg().Cut(text, c.Hmm)
	if c.GseMode {
		l = c.seg().CutSearch(text, c.Hmm)
	}
	for _, w := range l {
		if !c.stop(w) {
			out = append(out, w)
		}
	}
	return
}

// pinyin is the reference for the alphabet and abbreviation tokens.
func (c *EngCfg) pinyin(hans string) (out []string) {
	if c.Phrase {
		return phrase.Pinyin(hans, *c.seg())
	}
	put := func(t string) {
		if !c.stop(t) {
			out = append(out, t)
		}
	}
	acc := ""
	for _, h := range strings.Split(hans, "") {
		put(h)
		acc += h
		put(acc)
	}
	if c.Mode == ModeGse {
		for _, w := range c.cut(hans) {
			put(w)
		}
	}
	acc, ini := "", ""
	for _, p := range gpy.LazyConvert(hans, nil) {
		acc += p
		put(acc)
		if p != "" {
			ini += p[:1]
			put(ini)
		}
	}
	return
}

// DocTokens is the reference tokenisation for the configurations the harness
// uses: explicit tokens (Using 2); content split at spaces or into characters
// without segmenter (NotUseGse, Using 0, 4, 5, 6); the segmenter (Using 0, 1,
// 3) on content of dictionary words; each with or without PinYin.
func (c *EngCfg) DocTokens(d *DocSpec) (TokMap, int) {
	m := TokMap{}
	n := 0
	toks := func() {
		for _, t := range d.Toks {
			if !c.stop(t.T) {
				m[t.T] = t.L
			}
		}
		n += len(d.Toks)
	}
	over := func(x TokMap, k int) {
		for t, l := range x {
			m[t] = l
		}
		n += k
	}
	low := strings.ToLower(d.Content)
	switch {
	case c.Mode == ModeTokens:
		toks()
	case d.Content == "":
		toks()
	case c.Mode == ModeWords && c.Using == 0 || c.Using == 4:
		over(c.split(strings.Split(low, " "), false))
		toks()
	case c.Using == 0:
		n = c.segs(d.Content, m)
		toks()
	case c.Using == 1:
		n = c.segs(d.Content, m)
	default:
		if c.Using == 3 {
			n = c.segs(low, m)
		}
		over(c.split(strings.Split(low, ""), c.Using == 6))
		toks()
	}
	if c.PinYin {
		l := c.pinyin(d.Content)
		for i, t := range l {
			if !c.stop(t) {
				m[t] = []int{i}
			}
		}
		n += len(l)
	}
	for _, l := range d.Labels {
		if c.stop(l) {
			continue
		}
		if _, ok := m[l]; !ok {
			m[l] = []int{}
		}
	}
	return m, n
}

// QueryTokens is the reference for the query side.
func (c *EngCfg) QueryTokens(q *Query) []string {
	var out []string
	if q.Text != "" {
		t := strings.ToLower(q.Text)
		if c.Mode == ModeGse {
			out = c.cut(t)
		} else {
			out = strings.Split(t, " ")
		}
	}
	return append(out, q.Toks...)
}

// Match decides whether a document's tokens satisfy a query.
func (c *EngCfg) Match(q *Query, id string, m TokMap) bool {
	if q.UseIds {
		ok := false
		for _, x := range q.Ids {
			if x == id {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	has := func(t string) bool { _, ok := m[t]; return ok }
	all := func(ts []string) bool {
		for _, t := range ts {
			if !has(t) {
				return false
			}
		}
		return true
	}
	any := func(ts []string) bool {
		for _, t := range ts {
			if has(t) {
				return true
			}
		}
		return false
	}
	kw := append(c.QueryTokens(q), q.Labels...)
	if len(kw) == 0 && len(q.EM) == 0 && len(q.ES) == 0 {
		return false // a text of stop words, say
	}
	if isLogic(q) {
		if len(q.EM) > 0 || len(q.ES) > 0 {
			return all(q.EM) && (len(q.ES) == 0 || any(q.ES)) && !any(q.EN)
		}
		if q.Must && !all(kw) {
			return false
		}
		if q.Should && !any(kw) {
			return false
		}
		if q.NotIn && any(kw) {
			return false
		}
		return true
	}
	return len(kw) > 0 && all(kw)
}

// ---- BM25 over a single shard

type corpus struct {
	toks map[string]TokMap
	lens map[string]int
}

func (c *EngCfg) bm25(cp *corpus, toks []string, id string) float32 {
	if c.IndexType == types.DocIdsIndex {
		return 0
	}
	var total float32
	for _, k := range SortedKeys(cp.lens) {
		total += float32(cp.lens[k])
	}
	n := len(cp.toks)
	avg := total / float32(n)
	k1, b := c.K1, c.BB
	var s float32
	for _, t := range toks {
		df := 0
		for _, m := range cp.toks {
			if _, ok := m[t]; ok {
				df++
			}
		}
		f := float32(len(cp.toks[id][t]))
		if df == 0 || f == 0 || avg == 0 {
			continue
		}
		idf := float32(math.Log2(float64(n)/float64(df) + 1))
		d := float32(cp.lens[id])
		s += idf * f * (k1 + 1) / (f + k1*(1-b+b*d/avg))
	}
	if c.IndexType == types.LocsIndex {
		for _, t := range toks {
			if len(cp.toks[id][t]) == 0 {
				return 0 // documented: no score without full location data
			}
		}
	}
	return s
}

func near(a, b float32) bool {
	d := math.Abs(float64(a - b))
	return d <= 1e-4 || d <= 1e-4*math.Max(math.Abs(float64(a)), math.Abs(float64(b)))
}

// scoreLess orders score vectors best first.
func scoreLess(a, b []float32) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] > b[i] {
			return true
		}
		if a[i] < b[i] {
			return false
		}
	}
	return len(a) > len(b)
}

func sameScores(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

func sortScores(x [][]float32, rev bool) {
	sort.SliceStable(x, func(i, j int) bool {
		if rev {
			return scoreLess(x[j], x[i])
		}
		return scoreLess(x[i], x[j])
	})
}
