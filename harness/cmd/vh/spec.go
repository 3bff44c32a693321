package main

import "strings"

// Spec is one filing, described by what it says and not by how it is written.
// Concepts are named by their reference ("file.xsd#id" or "http://...#id").
type Spec struct {
	Entry     string            // entry file name
	Inline    *Inline           `json:",omitempty"`
	Schemas   []Schema          `json:",omitempty"`
	SchemaRef []string          `json:",omitempty"` // schemas the instance refers to
	Contexts  []Context         `json:",omitempty"`
	Units     []Unit            `json:",omitempty"`
	Facts     []Fact            `json:",omitempty"`
	FnLinks   []FnLink          `json:",omitempty"`
	Pres      []PLinkbase       `json:",omitempty"`
	Defs      []DLinkbase       `json:",omitempty"`
	Calcs     []CLinkbase       `json:",omitempty"`
	Labels    []LLinkbase       `json:",omitempty"`
	Extra     map[string]string `json:",omitempty"` // further files
	Drop      []string          `json:",omitempty"` // files left out of the folder
	Break     []string          `json:",omitempty"` // files made malformed
	Style     Style
}

type Schema struct {
	File     string
	NS       string
	Prefix   string
	Concepts []Concept `json:",omitempty"`
	Roles    []Role    `json:",omitempty"`
	Imports  []Import  `json:",omitempty"`
	Includes []string  `json:",omitempty"`
	Links    []LBRef   `json:",omitempty"`
}

type Import struct{ NS, Loc string }
type LBRef struct{ Kind, Href string } // Kind: P D C L
type Role struct {
	URI, ID, Def string
	Ann, App     int `json:",omitempty"` // which annotation / appinfo holds it
}

type Concept struct {
	ID, Name string
	Kind     string // money perShare shares pure percent string text domain (item types); elem (not an item)
	Abstract bool   `json:",omitempty"`
	Subst    string `json:",omitempty"` // "" item, dim, cube
	Balance  string `json:",omitempty"`
	Instant  bool   `json:",omitempty"`
	Typed    string `json:",omitempty"` // reference of the typed domain element
}

type Context struct {
	ID            string
	Scheme, Ident string
	Start, End    string   `json:",omitempty"`
	Instant       string   `json:",omitempty"`
	Seg           []Member `json:",omitempty"`
	Scen          []Member `json:",omitempty"`
}

type Member struct {
	Dim   string
	Mem   string  `json:",omitempty"`
	Typed *TypedV `json:",omitempty"`
}

type TypedV struct {
	El   string
	Text string   `json:",omitempty"`
	Kids []TypedV `json:",omitempty"`
}

type Measure struct{ NS, Local string }
type Unit struct {
	ID  string
	Num Measure
	Den *Measure `json:",omitempty"`
}

type Fact struct {
	ID      string `json:",omitempty"`
	Concept string
	Ctx     string
	Unit    string `json:",omitempty"`
	Dec     string `json:",omitempty"`
	Nil     bool   `json:",omitempty"`
	Inner   string // raw inner markup
}

type FnLink struct {
	Title string   `json:",omitempty"`
	Locs  []FnLoc  `json:",omitempty"`
	Notes []FnNote `json:",omitempty"`
	Arcs  []FnArc  `json:",omitempty"`
}
type FnLoc struct{ Label, Fact string } // Fact: fact id
type FnNote struct{ ID, Label, Lang, Inner string }
type FnArc struct {
	From, To string
	Arcrole  string `json:",omitempty"` // other than fact-footnote
}

// Node is a concept reference, optionally followed by "@n" for a further
// locator of the same concept.
type PArc struct {
	From, To string
	Order    string
	Pref     string `json:",omitempty"`
	Arcrole  string `json:",omitempty"` // other than parent-child
}
type PLink struct {
	Role string
	Arcs []PArc
}
type PLinkbase struct {
	File  string
	Links []PLink
}
type DArc struct {
	From, To string
	Kind     string // dm dd df hd all not, gs (another kind)
	Order    string
	Closed   string `json:",omitempty"`
	Usable   string `json:",omitempty"`
	CtxElem  string `json:",omitempty"`
	Target   string `json:",omitempty"`
}
type DLink struct {
	Role string
	Arcs []DArc
}
type DLinkbase struct {
	File  string
	Links []DLink
}
type CArc struct {
	From, To string
	Order    string
	Weight   string
	Arcrole  string `json:",omitempty"` // other than summation-item
}
type CLink struct {
	Role string
	Arcs []CArc
}
type CLinkbase struct {
	File  string
	Links []CLink
}
type LLabel struct {
	Concept string
	Role    string // full role URI
	Lang    string
	Text    string
	Arcrole string `json:",omitempty"` // other than concept-label
}

// LLinkbase is one label linkbase file; each link is a list of labels.
type LLinkbase struct {
	File  string
	Links [][]LLabel
}

// Inline describes the inline document that accompanies the instance.
type Inline struct {
	Tags     []IxTag           `json:",omitempty"`
	Prefixes map[string]string `json:",omitempty"` // prefix -> namespace, for the document
	Body     string            `json:",omitempty"` // further markup in the body
	Raw      string            `json:",omitempty"` // complete document if set
}
type IxTag struct {
	Prefix, Local string
	Ctx           string
	Numeric       bool
	Inner         string
}

// Style says how the filing is written down; the zero value is canonical.
type Style struct {
	Seed    uint64 `json:",omitempty"`
	Shuffle bool   `json:",omitempty"` // textual sequence of siblings
	Prefix  bool   `json:",omitempty"` // namespace prefixes
	Labels  bool   `json:",omitempty"` // xlink labels
	Split   bool   `json:",omitempty"` // several links per role
	Space   bool   `json:",omitempty"` // white space and comments
	Attrs   bool   `json:",omitempty"` // attribute sequence
	Forms   bool   `json:",omitempty"` // equivalent attribute values
	Enc     bool   `json:",omitempty"` // encodings
}

func hrefOf(node string) string {
	if i := strings.IndexByte(node, '@'); i >= 0 {
		return node[:i]
	}
	return node
}

const (
	nsXBRLI  = "http://www.xbrl.org/2003/instance"
	nsLINK   = "http://www.xbrl.org/2003/linkbase"
	nsXLINK  = "http://www.w3.org/1999/xlink"
	nsXSD    = "http://www.w3.org/2001/XMLSchema"
	nsXSI    = "http://www.w3.org/2001/XMLSchema-instance"
	nsXBRLDI = "http://xbrl.org/2006/xbrldi"
	nsXBRLDT = "http://xbrl.org/2005/xbrldt"
	nsISO    = "http://www.xbrl.org/2003/iso4217"
	nsNUM    = "http://www.xbrl.org/dtr/type/numeric"
	nsNONNUM = "http://www.xbrl.org/dtr/type/non-numeric"
	nsIX     = "http://www.xbrl.org/2013/inlineXBRL"
	nsXHTML  = "http://www.w3.org/1999/xhtml"

	roleLink    = "http://www.xbrl.org/2003/role/link"
	roleLabel   = "http://www.xbrl.org/2003/role/label"
	roleTerse   = "http://www.xbrl.org/2003/role/terseLabel"
	roleVerbose = "http://www.xbrl.org/2003/role/verboseLabel"
	arcPC       = "http://www.xbrl.org/2003/arcrole/parent-child"
	arcSI       = "http://www.xbrl.org/2003/arcrole/summation-item"
	arcCL       = "http://www.xbrl.org/2003/arcrole/concept-label"
	arcFF       = "http://www.xbrl.org/2003/arcrole/fact-footnote"
	arcOther    = "http://vh.test/arcrole/other"
	arcLB       = "http://www.w3.org/1999/xlink/properties/linkbase"
)

var dArcroles = map[string]string{
	"dm":  "http://xbrl.org/int/dim/arcrole/domain-member",
	"dd":  "http://xbrl.org/int/dim/arcrole/dimension-domain",
	"df":  "http://xbrl.org/int/dim/arcrole/dimension-default",
	"hd":  "http://xbrl.org/int/dim/arcrole/hypercube-dimension",
	"all": "http://xbrl.org/int/dim/arcrole/all",
	"not": "http://xbrl.org/int/dim/arcrole/notAll",
	"gs":  "http://www.xbrl.org/2003/arcrole/general-special",
}

var lbRoles = map[string]string{
	"P": "http://www.xbrl.org/2003/role/presentationLinkbaseRef",
	"D": "http://www.xbrl.org/2003/role/definitionLinkbaseRef",
	"C": "http://www.xbrl.org/2003/role/calculationLinkbaseRef",
	"L": "http://www.xbrl.org/2003/role/labelLinkbaseRef",
}
