package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The part of the world that is the same for every case of a run: three global
// taxonomies (with the same local names), the unit registry and the entity
// names. The code under test keeps these for the lifetime of the process.

var globalSchemas = mkGlobals()

func mkGlobals() []Schema {
	mk := func(file, ns, prefix, id string) Schema {
		s := Schema{File: "http://vh.test/" + file, NS: "http://vh.test/" + ns, Prefix: prefix}
		add := func(name, kind string, c Concept) {
			c.Name, c.ID, c.Kind = name, id+"_"+name, kind
			s.Concepts = append(s.Concepts, c)
		}
		add("Assets", "money", Concept{Instant: true, Balance: "debit"})
		add("AssetsNet", "money", Concept{Instant: true, Balance: "debit"})
		add("Liabilities", "money", Concept{Instant: true, Balance: "credit"})
		add("Revenue", "money", Concept{Balance: "credit"})
		add("EPS", "perShare", Concept{})
		add("Shares", "shares", Concept{Instant: true})
		add("Rate", "percent", Concept{})
		add("Ratio", "pure", Concept{})
		add("Name", "string", Concept{})
		add("Note", "text", Concept{})
		add("StatementAbstract", "string", Concept{Abstract: true})
		add("LineItems", "string", Concept{Abstract: true})
		add("RegionAxis", "string", Concept{Abstract: true, Subst: "dim"})
		add("ProductAxis", "string", Concept{Abstract: true, Subst: "dim"})
		add("Table", "string", Concept{Abstract: true, Subst: "cube"})
		add("RegionDomain", "domain", Concept{Abstract: true})
		add("NorthMember", "domain", Concept{Abstract: true})
		add("SouthMember", "domain", Concept{Abstract: true})
		add("TypedAxis", "string", Concept{Abstract: true, Subst: "dim", Typed: s.File + "#" + id + "_TypedValue"})
		add("TypedValue", "elem", Concept{})
		return s
	}
	return []Schema{
		mk("std/2020/std.xsd", "std/2020", "std", "std"), mk("std/2019/std.xsd", "std/2019", "std19", "std"),
		mk("std/2020/STD.xsd", "STD/2020", "STD", "up"), // differs in case from the first
	}
}

type utrUnit struct {
	NS, ID, Name, Symbol string
}

const nsMyUnits = "http://vh.test/units"

var utrUnits = []utrUnit{
	{nsISO, "USD", "US Dollar", "$"},
	{nsISO, "EUR", "Euro", "€"},
	{nsISO, "CHF", "Swiss Franc", ""},
	{nsISO, "JPY", "Japanese Yen", "¥"},
	{nsXBRLI, "shares", "Share", ""},
	{nsXBRLI, "pure", "pure", ""},
	{nsMyUnits, "kg", "Kilogram", ""},
	{nsMyUnits, "USD", "Other Dollar", "O$"},
	{nsMyUnits, "shares", "Lot", "#L"},
	{nsMyUnits, "mi", "Mile", ""},
}

func findUnit(m Measure) *utrUnit {
	for i := range utrUnits {
		if utrUnits[i].NS == m.NS && utrUnits[i].ID == m.Local {
			return &utrUnits[i]
		}
	}
	return nil
}

// names listed in the registry: scheme -> identifier -> name
var entityNames = map[string]map[string]string{
	"http://www.sec.gov/CIK": {"0000000001": "First Corp", "0000000002": "Second <b>&\"Co\"", "1": "Short"},
	"http://vh.test/lei":     {"0000000001": "First of LEI", "ABC": "Ábc AG"},
}

func writeWorld(dir string) (wd, gts string, err error) {
	wd, gts = filepath.Join(dir, "wd"), filepath.Join(dir, "gts")
	if err = os.MkdirAll(filepath.Join(wd, "folders"), 0o755); err != nil {
		return
	}
	b, _ := json.Marshal(entityNames)
	if err = os.WriteFile(filepath.Join(wd, "names.json"), b, 0o644); err != nil {
		return
	}
	put := func(url, content string) error {
		f := filepath.Join(gts, "concepts", strings.Replace(url, "://", "/", 1))
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			return err
		}
		return os.WriteFile(f, []byte(content), 0o644)
	}
	var s Spec
	for i := range globalSchemas {
		if err = put(globalSchemas[i].File, s.schemaFile(&globalSchemas[i])); err != nil {
			return
		}
	}
	var u strings.Builder
	u.WriteString(`<?xml version="1.0" encoding="UTF-8"?><utr xmlns="http://www.xbrl.org/2009/utr"><units>`)
	for i, x := range utrUnits {
		fmt.Fprintf(&u, `<unit id="u%d"><unitId>%s</unitId><unitName>%s</unitName><nsUnit>%s</nsUnit><itemType>decimalItemType</itemType>`, i, x.ID, x.Name, x.NS)
		if x.Symbol != "" {
			fmt.Fprintf(&u, `<symbol>%s</symbol>`, x.Symbol)
		}
		u.WriteString(`<status>REC</status></unit>`)
	}
	u.WriteString(`</units></utr>`)
	err = put("http://www.xbrl.org/utr/utr.xml", u.String())
	return
}
