package main

import (
	_ "embed"
	"strings"
)

//go:embed golden/schema.txt
var schemaText string

//go:embed golden/leaves103.txt
var leavesText string

// Field is one element (or list of elements) of an aggregate.
type Field struct {
	Go     string
	Path   []string // element names from the aggregate down to this element
	Kind   string   // amount boolean currsymbol date int string uid enum struct poly inline msgsets
	Enum   string
	Struct string
	Poly   string
	Ptr    bool
	Slice  bool
	Opt    bool
}

// Name is the field's own element name.
func (f *Field) Name() string { return f.Path[len(f.Path)-1] }

// Struct is one aggregate.
type Struct struct {
	Name   string
	XML    string
	Fields []*Field
}

// EnumDef is one enumeration.
type EnumDef struct {
	Name   string
	Ctor   string
	Values []string
	Consts []string
}

// SetDef is one message set.
type SetDef struct {
	Field string // of Request or Response
	Elem  string
	Types []string
}

var (
	structs  = map[string]*Struct{}
	polys    = map[string][]string{}
	enums    = map[string]*EnumDef{}
	enumList []*EnumDef
	reqSets  []*SetDef
	respSets []*SetDef
	leaf103  = map[string]bool{}
)

func init() {
	for _, l := range strings.Fields(leavesText) {
		leaf103[l] = true
	}
	var cur *Struct
	for _, l := range strings.Split(schemaText, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		w := strings.Fields(l)
		switch {
		case strings.HasPrefix(l, "  "):
			f := &Field{Go: w[0]}
			if w[1] != "-" {
				f.Path = strings.Split(w[1], ">")
			}
			k := w[2]
			if strings.HasPrefix(k, "*") {
				f.Ptr, k = true, k[1:]
			} else if strings.HasPrefix(k, "[]") {
				f.Slice, k = true, k[2:]
			}
			switch {
			case strings.HasPrefix(k, "enum:"):
				f.Kind, f.Enum = "enum", k[5:]
			case strings.HasPrefix(k, "poly:"):
				f.Kind, f.Poly = "poly", k[5:]
			case strings.HasPrefix(k, "inline:"):
				f.Kind, f.Struct = "inline", k[7:]
			case k == strings.ToLower(k):
				f.Kind = k
			default:
				f.Kind, f.Struct = "struct", k
			}
			f.Opt = len(w) > 3 && w[3] == "opt"
			cur.Fields = append(cur.Fields, f)
		case w[0] == "struct":
			cur = &Struct{Name: w[1], XML: w[2]}
			structs[w[1]] = cur
		case w[0] == "poly":
			polys[w[1]] = w[2:]
		case w[0] == "enum":
			e := &EnumDef{Name: w[1], Ctor: w[2]}
			for _, kv := range w[3:] {
				p := strings.SplitN(kv, "=", 2)
				e.Values = append(e.Values, strings.ReplaceAll(p[0], "_", " "))
				e.Consts = append(e.Consts, p[1])
			}
			enums[e.Name] = e
			enumList = append(enumList, e)
		case w[0] == "reqset":
			reqSets = append(reqSets, &SetDef{w[1], w[2], w[3:]})
		case w[0] == "respset":
			respSets = append(respSets, &SetDef{w[1], w[2], w[3:]})
		}
	}
	listEnums()
	findLists()
	for _, s := range structs {
		for _, f := range s.Fields {
			if f.Struct != "" && structs[f.Struct] == nil {
				panic("schema: " + s.Name + "." + f.Go)
			}
			if f.Poly != "" && polys[f.Poly] == nil {
				panic("schema: " + s.Name + "." + f.Go)
			}
			if f.Enum != "" && enums[f.Enum] == nil {
				panic("schema: " + s.Name + "." + f.Go)
			}
		}
	}
}

func (s *Struct) field(name string) *Field {
	for _, f := range s.Fields {
		if f.Go == name {
			return f
		}
	}
	panic("no field " + s.Name + "." + name)
}
