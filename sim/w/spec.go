package w

// Tok is a token given with its locations.
type Tok struct {
	T string `json:"t"`
	L []int  `json:"l,omitempty"`
}

// DocSpec is what is indexed under a document id.
type DocSpec struct {
	Ver     int      `json:"v"`
	Content string   `json:"content,omitempty"`
	Toks    []Tok    `json:"toks,omitempty"`
	Labels  []string `json:"labels,omitempty"`
	A       float32  `json:"a,omitempty"`
	B       float32  `json:"b,omitempty"`
	Drop    bool     `json:"drop,omitempty"`
	NS      int      `json:"ns,omitempty"`
	Title   string   `json:"title,omitempty"`
	Bare    int      `json:"bare,omitempty"` // 1: no fields, 2: no attributes
}

// Query is a search request in the model's terms.
type Query struct {
	Text   string   `json:"text,omitempty"`
	Toks   []string `json:"toks,omitempty"`
	Labels []string `json:"labels,omitempty"`
	Ids    []string `json:"ids,omitempty"`
	UseIds bool     `json:"use_ids,omitempty"`
	Must   bool     `json:"must,omitempty"`
	Should bool     `json:"should,omitempty"`
	NotIn  bool     `json:"notin,omitempty"`
	EM     []string `json:"em,omitempty"`
	ES     []string `json:"es,omitempty"`
	EN     []string `json:"en,omitempty"`
	Rev    bool     `json:"rev,omitempty"`
	Off    int      `json:"off,omitempty"`
	Max    int      `json:"max,omitempty"`
	NoOpts bool     `json:"noopts,omitempty"`
	Tmo    int      `json:"tmo,omitempty"`
	Count  bool     `json:"count,omitempty"`
	Less   bool     `json:"orderless,omitempty"`
	Score  int      `json:"score,omitempty"`
	Slow   int      `json:"slow,omitempty"`  // the scorer sleeps this many ms per document
	API    int      `json:"api,omitempty"`   // 0 Search, 1 SearchDoc/SearchID
	Share  bool     `json:"share,omitempty"` // equal queries with this mark use one request
	Dirty  bool     `json:"dirty,omitempty"` // the caller overwrites the answer's lists
}
