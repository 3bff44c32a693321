From 42b092fa0511183b9aa98a84d31f7e2686f372f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:03 +0000
Subject: [PATCH 01/48] fix: ignore white space around identifiers, dates and
 names in contexts

Entity identifiers, period dates, dimension and member names and unit
measures are white-space-collapsed XML types. A line break inside one of
these elements made the same entity a second one, or lost the member.
---
 pkg/attr/attr.go            |  1 +
 pkg/hydratables/instance.go | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/attr/attr.go b/pkg/attr/attr.go
index 79d62de..b99f76d 100644
--- a/pkg/attr/attr.go
+++ b/pkg/attr/attr.go
@@ -26,6 +26,7 @@ func FindXpathAttr(attrs []xmlquery.Attr, attr string) *xmlquery.Attr {
 }
 
 func Xmlns(attrs []xml.Attr, prefixedName string) xml.Name {
+	prefixedName = strings.TrimSpace(prefixedName)
 	i := strings.IndexRune(prefixedName, ':')
 	if i < 0 {
 		xmlnsAttr := FindAttr(attrs, `xmlns`)
diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index b54f7f8..7e3cdb5 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -138,14 +138,15 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(entity.Identifier) <= 0 {
 			continue
 		}
-		if entity.Identifier[0].CharData == "" {
+		identifier := strings.TrimSpace(entity.Identifier[0].CharData)
+		if identifier == "" {
 			continue
 		}
 		schemeAttr := attr.FindAttr(entity.Identifier[0].XMLAttrs, "scheme")
 		if schemeAttr == nil {
 			continue
 		}
-		newEntity.Identifier.CharData = entity.Identifier[0].CharData
+		newEntity.Identifier.CharData = identifier
 		newEntity.Identifier.Scheme = schemeAttr.Value
 		if len(entity.Segment) > 0 {
 			segment := DimensionContext{}
@@ -230,14 +231,14 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		if len(context.Period) > 0 {
 			if len(context.Period[0].Instant) > 0 {
 				instant := Instant{
-					CharData: context.Period[0].Instant[0].CharData,
+					CharData: strings.TrimSpace(context.Period[0].Instant[0].CharData),
 				}
 				item.Period.Instant = instant
 			}
 			if len(context.Period[0].StartDate) > 0 && len(context.Period[0].EndDate) > 0 {
 				duration := Duration{
-					StartDate: context.Period[0].StartDate[0].CharData,
-					EndDate:   context.Period[0].EndDate[0].CharData,
+					StartDate: strings.TrimSpace(context.Period[0].StartDate[0].CharData),
+					EndDate:   strings.TrimSpace(context.Period[0].EndDate[0].CharData),
 				}
 				item.Period.Duration = duration
 			}
-- 
2.43.0


From 78b01cfeb1272379a57d433e86d0cbabd8d0b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:24 +0000
Subject: [PATCH 02/48] fix: read the closed and usable attributes of
 definition arcs

A readable value was replaced by the default and an arc without a usable
attribute was taken as not usable, although usable defaults to true.
---
 pkg/hydratables/definitionLinkbase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hydratables/definitionLinkbase.go b/pkg/hydratables/definitionLinkbase.go
index ac40a31..27b1b76 100644
--- a/pkg/hydratables/definitionLinkbase.go
+++ b/pkg/hydratables/definitionLinkbase.go
@@ -138,15 +138,16 @@ func hydrateDefinitionLink(linkbaseFile *serializables.DefinitionLinkbaseFile) [
 			closedAttr := attr.FindAttr(arc.XMLAttrs, "closed")
 			if closedAttr != nil {
 				closed, err := strconv.ParseBool(closedAttr.Value)
-				if err == nil {
+				if err != nil {
 					closed = false
 				}
 				newArc.Closed = closed
 			}
+			newArc.Usable = true
 			usableAttr := attr.FindAttr(arc.XMLAttrs, "usable")
 			if usableAttr != nil {
 				usable, err := strconv.ParseBool(usableAttr.Value)
-				if err == nil {
+				if err != nil {
 					usable = true
 				}
 				newArc.Usable = usable
-- 
2.43.0


From 8dae7ceb99928520cccb3db80ef0f7585cef2afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:02 +0000
Subject: [PATCH 03/48] fix: use labels written in plain English
 (xml:lang="en")

Go switch cases do not fall through, so labels tagged "en" were dropped
and only "en-US" ones were shown.
---
 pkg/renderables/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 804ac2b..ee07b3d 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -65,8 +65,7 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
 	switch labelLinkLabel.Lang {
-	case "en":
-	case "en-US":
+	case "en", "en-US":
 		labelPack[labelRole][English] = charData
 		break
 	case "es":
-- 
2.43.0


From 6946d0923c1e41d9a7f60fe9708f823e0937ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:10 +0000
Subject: [PATCH 04/48] fix: list the languages of all labels of a page

When the label packs of a page were merged, each pack replaced the
languages of the packs before it, so the languages offered depended on
the last concept only.
---
 pkg/renderables/labelPack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index 06afe3b..caf6cb6 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -38,7 +38,9 @@ func reduce(labelPacks []LabelPack) *LabelPack {
 	for i := 0; i < len(labelPacks); i++ {
 		item := labelPacks[i]
 		for labelRole, langPack := range item {
-			ret[labelRole] = make(LanguagePack)
+			if _, found := ret[labelRole]; !found {
+				ret[labelRole] = make(LanguagePack)
+			}
 			for lang, chardata := range langPack {
 				ret[labelRole][lang] = chardata
 			}
-- 
2.43.0


From 091bc350e57eff03a50194b673b627939da51e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:18 +0000
Subject: [PATCH 05/48] fix: collect languages and label roles of a page
 without a data race

The three grids of a page are built concurrently and appended to the
shared lists unsynchronised, which could lose a grid's languages.
---
 pkg/renderables/renderable.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 67fcd8e..10b8371 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -49,6 +49,7 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					langs      []Lang
 					err        error
 					wg         sync.WaitGroup
+					mu         sync.Mutex
 				)
 				wg.Add(3)
 				labelRoles = make([]LabelRole, 0, 20)
@@ -56,6 +57,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localP, lr, ln, localError := pGrid(entity, linkrole, h, h, h, h)
+					mu.Lock()
+					defer mu.Unlock()
 					if localError != nil {
 						err = localError
 						return
@@ -67,6 +70,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localD, lr, ln, localError := dGrid(entity, linkrole, h, h, h, h)
+					mu.Lock()
+					defer mu.Unlock()
 					if localError != nil {
 						err = localError
 						return
@@ -78,6 +83,8 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				go func(entity string, linkrole string) {
 					defer wg.Done()
 					localC, lr, ln, localError := cGrid(entity, linkrole, h, h, h, h)
+					mu.Lock()
+					defer mu.Unlock()
 					if localError != nil {
 						err = localError
 						return
-- 
2.43.0


From 921fbf3ae9380a816f13dab785188d0119b6dd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:26 +0000
Subject: [PATCH 06/48] fix: show pages of entities that have no entry in the
 names file

The catalog lists such an entity under its identifier, but its pages
failed because the name lookup error replaced the error of the grids.
---
 pkg/renderables/renderable.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index 10b8371..a7f4d4c 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -94,13 +94,16 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					langs = append(langs, ln...)
 				}(eentity, llinkrole)
 				wg.Wait()
+				if err != nil {
+					return nil, err
+				}
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
 				p, d, c = formatPeriod(p, d, c, langs)
 				name := schemedEntity.Scheme + "/" + schemedEntity.CharData
-				hydratedName, err := hydratables.EntityQuery(schemedEntity.Scheme,
+				hydratedName, nameErr := hydratables.EntityQuery(schemedEntity.Scheme,
 					schemedEntity.CharData)
-				if err == nil {
+				if nameErr == nil {
 					name = hydratedName
 				}
 				ret := Renderable{
@@ -124,9 +127,6 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 					Lang:       langs,
 					LabelRoles: labelRoles,
 				}
-				if err != nil {
-					return nil, err
-				}
 				return json.Marshal(ret)
 			}
 		}
-- 
2.43.0


From 9dd40a091bbbc1396e30a473ddb60b0883d23a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:35 +0000
Subject: [PATCH 07/48] fix: list languages and label roles of a page in a
 fixed sequence

They were listed in the iteration sequence of maps, so two requests for
the same page gave different answers.
---
 pkg/renderables/labelPack.go  | 7 +++++++
 pkg/renderables/renderable.go | 1 +
 2 files changed, 8 insertions(+)

diff --git a/pkg/renderables/labelPack.go b/pkg/renderables/labelPack.go
index caf6cb6..d3b1be2 100644
--- a/pkg/renderables/labelPack.go
+++ b/pkg/renderables/labelPack.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "sort"
+
 type LabelRole string
 type Lang string
 
@@ -61,6 +63,11 @@ func destruct(labelPack LabelPack) ([]LabelRole, []Lang) {
 	return labelRoles, langs
 }
 
+func sortLabels(labelRoles []LabelRole, langs []Lang) {
+	sort.Slice(labelRoles, func(i, j int) bool { return labelRoles[i] < labelRoles[j] })
+	sort.Slice(langs, func(i, j int) bool { return langs[i] < langs[j] })
+}
+
 func dedupLang(langs []Lang) []Lang {
 	arr := make([]string, 0, len(langs))
 	for _, lang := range langs {
diff --git a/pkg/renderables/renderable.go b/pkg/renderables/renderable.go
index a7f4d4c..825b9cd 100644
--- a/pkg/renderables/renderable.go
+++ b/pkg/renderables/renderable.go
@@ -99,6 +99,7 @@ func MarshalRenderable(slug string, h *hydratables.Hydratable) ([]byte, error) {
 				}
 				langs = dedupLang(langs)
 				labelRoles = dedupLabelRole(labelRoles)
+				sortLabels(labelRoles, langs)
 				p, d, c = formatPeriod(p, d, c, langs)
 				name := schemedEntity.Scheme + "/" + schemedEntity.CharData
 				hydratedName, nameErr := hydratables.EntityQuery(schemedEntity.Scheme,
-- 
2.43.0


From a922ca67410f0373daa6912ef17456b98f5d39b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:14 +0000
Subject: [PATCH 08/48] fix: find all footnotes of a fact

Footnotes were looked up by their id although arcs name their label, and
only the first footnote link that had arcs for the fact was used; a link
without arcs ended the search.
---
 pkg/hydratables/fact.go | 79 ++++++++---------------------------------
 1 file changed, 15 insertions(+), 64 deletions(-)

diff --git a/pkg/hydratables/fact.go b/pkg/hydratables/fact.go
index 1ba33fc..a7601f2 100644
--- a/pkg/hydratables/fact.go
+++ b/pkg/hydratables/fact.go
@@ -3,9 +3,7 @@ package hydratables
 import (
 	"strings"
 
-	"ecksbee.com/telefacts/internal/graph"
 	"ecksbee.com/telefacts/pkg/attr"
-	myarcs "github.com/joshuanario/arcs"
 )
 
 type Fact struct {
@@ -29,79 +27,32 @@ func (h *Hydratable) FindFact(href string, contextRef string) *Fact {
 	return nil
 }
 
-func fnoteArcs(fnoteArcs []FootnoteArc) []myarcs.Arc {
-	ret := make([]myarcs.Arc, 0, len(fnoteArcs))
-	for i, fnoteArc := range fnoteArcs {
-		ret = append(ret, myarcs.Arc{
-			Arcrole: fnoteArc.Arcrole,
-			Order:   float64(i),
-			From:    fnoteArc.From,
-			To:      fnoteArc.To,
-		})
-	}
-	return ret
-}
-
 func (h *Hydratable) GetFootnotes(fact *Fact) []*Footnote {
-	if fact == nil {
-		return make([]*Footnote, 0)
+	ret := make([]*Footnote, 0)
+	if fact == nil || fact.ID == "" {
+		return ret
 	}
 	for _, instance := range h.Instances {
 		for _, footnoteLink := range instance.FootnoteLinks {
-			arcs := footnoteLink.FootnoteArcs
-			fnoteArcs := fnoteArcs(arcs)
-			root := graph.Tree(fnoteArcs, attr.FactFootnoteArcrole)
-			ret := make([]*Footnote, 0, len(arcs))
-			if len(root.Children) <= 0 {
-				return nil
-			}
-			for _, child := range root.Children {
-				href := mapFnoteLocatorToHref(&instance, child.Locator)
-				locatedID := href
-				pos := strings.LastIndex(href, "#")
-				if pos > -1 {
-					adjustedPos := pos + 1
-					if adjustedPos < len(href) {
-						locatedID = href[adjustedPos:]
-					}
+			for _, loc := range footnoteLink.Locs {
+				pos := strings.LastIndex(loc.Href, "#")
+				if loc.Href[pos+1:] != fact.ID {
+					continue
 				}
-				if locatedID == fact.ID {
-					for _, grandchild := range child.Children {
-						footnoteHref := mapFnoteLocatorToHref(&instance, grandchild.Locator)
-						locatedFnoteID := footnoteHref
-						pos := strings.LastIndex(footnoteHref, "#")
-						if pos > -1 {
-							adjustedPos := pos + 1
-							if adjustedPos < len(footnoteHref) {
-								locatedFnoteID = footnoteHref[adjustedPos:]
-							}
-						}
-						locatedFootnote := h.FindFootnote(locatedFnoteID)
-						if locatedFootnote != nil {
-							ret = append(ret, locatedFootnote)
+				for _, arc := range footnoteLink.FootnoteArcs {
+					if arc.Arcrole != attr.FactFootnoteArcrole || arc.From != loc.Label {
+						continue
+					}
+					for _, footnote := range footnoteLink.Footnotes {
+						if footnote.Label == arc.To {
+							ret = append(ret, h.FindFootnote(footnote.ID))
 						}
 					}
-					return ret
 				}
 			}
 		}
 	}
-	return nil
-}
-
-func mapFnoteLocatorToHref(instance *Instance, locator string) string {
-	footnoteLinks := instance.FootnoteLinks
-	for _, footnoteLink := range footnoteLinks {
-		for _, loc := range footnoteLink.Locs {
-			if loc.Label == locator {
-				i := strings.Index(loc.Href, "#")
-				if i >= 0 {
-					return loc.Href
-				}
-			}
-		}
-	}
-	return "#" + locator
+	return ret
 }
 
 func (h *Hydratable) FindFootnote(id string) *Footnote {
-- 
2.43.0


From 18c154aa2313ed7986efec2dd7ca5c5dce271369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:22 +0000
Subject: [PATCH 09/48] fix: number footnotes in the sequence in which they are
 listed

Numbers and list came from separate iterations over a map, so a cell
could point at the footnote of another cell.
---
 pkg/renderables/factualQuadrant.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/renderables/factualQuadrant.go b/pkg/renderables/factualQuadrant.go
index b6b1922..07c4748 100644
--- a/pkg/renderables/factualQuadrant.go
+++ b/pkg/renderables/factualQuadrant.go
@@ -26,6 +26,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 	ret := make([][]*MultilingualFact, rowCount)
 	footnoteGrid := make([][][]*hydratables.Footnote, rowCount)
 	idMap := make(map[string]*hydratables.Footnote)
+	ids := make([]string, 0)
 	for i := 0; i < rowCount; i++ {
 		row := make([]*MultilingualFact, colCount)
 		footnoteRow := make([][]*hydratables.Footnote, colCount)
@@ -39,6 +40,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			for _, footnote := range footnotes {
 				if _, found := idMap[footnote.ID]; !found {
 					idMap[footnote.ID] = footnote
+					ids = append(ids, footnote.ID)
 				}
 			}
 			row[j] = render(fact, conceptFinder, measurementFinder, langs)
@@ -55,7 +57,7 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			footnotes := footnoteGrid[i][j]
 			k := 1
 			ints := make([]int, 0)
-			for id := range idMap {
+			for _, id := range ids {
 				for _, footnote := range footnotes {
 					if footnote.ID == id {
 						ints = append(ints, k)
@@ -67,8 +69,8 @@ func getFactualQuadrant(hrefs []string, relevantContexts []relevantContext,
 			grid[i][j] = ints
 		}
 	}
-	for _, footnote := range idMap {
-		arr = append(arr, footnote.InnerHtml)
+	for _, id := range ids {
+		arr = append(arr, idMap[id].InnerHtml)
 	}
 	return ret, grid, arr
 }
-- 
2.43.0


From ebda70299ab5318ba6dd028adbd11af984df2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:29 +0000
Subject: [PATCH 10/48] fix: resolve both ends of definition arcs within their
 own link

The locator of an arc with a target role was looked for in the link of
that role, which need not have it, and was shown as a bare label.
---
 pkg/renderables/dimensionRelationshipSet.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 2b0883c..37e5513 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -65,12 +65,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 			if definitionLink.Role == linkroleURI {
 				arcs := definitionLink.DefinitionArcs
 				for _, arc := range arcs {
-					var to string
-					if arc.TargetRole != "" {
-						to = mapDLocatorToHref(arc.TargetRole, &definition, arc.To)
-					} else {
-						to = mapDLocatorToHref(linkroleURI, &definition, arc.To)
-					}
+					to := mapDLocatorToHref(linkroleURI, &definition, arc.To)
 					hrefs[to]++
 					from := mapDLocatorToHref(linkroleURI, &definition, arc.From)
 					hrefs[from]++
-- 
2.43.0


From e0fdc77203050f066c1ee30d440e8a06b4c64561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:37 +0000
Subject: [PATCH 11/48] fix: do not flag every domain of a dimension as its
 default

---
 pkg/renderables/dimensionRelationshipSet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index 37e5513..da42287 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -98,7 +98,7 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 					case attr.DimensionDomainArcrole:
 						dd = &DimensionDomainConnection{
 							Order:    order,
-							Default:  true,
+							Default:  false,
 							Usable:   arc.Usable,
 							External: arc.TargetRole,
 						}
-- 
2.43.0


From 4b45c60a5f1d22697ab2d9da406cbf6be1d8eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:44 +0000
Subject: [PATCH 12/48] fix: show the whole weight of a contributing concept

Weights such as 0.25 were rounded to one decimal.
---
 pkg/renderables/calculationGrid.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 484648f..a133094 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"strconv"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -101,6 +102,9 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 						_, isSummationItem := cMap[cstruct.Href]
 						sign := fmt.Sprintf("%c", cstruct.Sign)
 						scale := fmt.Sprintf("%.1f", cstruct.Scale)
+						if exact := strconv.FormatFloat(cstruct.Scale, 'f', -1, 64); len(exact) > len(scale) {
+							scale = exact
+						}
 						cLabelPack := GetLabel(h, cstruct.Href)
 						_, concept, err := h.HashQuery(cstruct.Href)
 						if err != nil {
-- 
2.43.0


From 028252c73d27e7c1780e9f9616190698ec14d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:15:51 +0000
Subject: [PATCH 13/48] fix: build calculation groups in a fixed sequence

The languages of a group's facts depend on the groups built before it,
and groups were built in the iteration sequence of a map. A linkbase
that does not refer to the role also reused the links of the one before.
---
 pkg/renderables/calculationGrid.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index a133094..20db891 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -47,8 +47,8 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
-	var calculationLinks []hydratables.CalculationLink
 	for _, calculation := range h.CalculationLinkbases {
+		var calculationLinks []hydratables.CalculationLink
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
 				calculationLinks = calculation.CalculationLinks
@@ -95,7 +95,13 @@ func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.
 					langs      []Lang
 				)
 				ret := make([]SummationItem, 0, len(cMap))
-				for from, slice := range cMap {
+				froms := make([]string, 0, len(cMap))
+				for from := range cMap {
+					froms = append(froms, from)
+				}
+				sort.Strings(froms)
+				for _, from := range froms {
+					slice := cMap[from]
 					contributingConcepts := make([]ContributingConcept, 0, len(slice))
 					fqLabels := make([]string, 0, len(slice)+1)
 					for _, cstruct := range slice {
-- 
2.43.0


From 37a62e7acd7b924955dda1c2bf91b349ca8cc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:49 +0000
Subject: [PATCH 14/48] fix: read nested typed member values

After the end of a nested element the following one was attached to it
instead of to its parent, elements without own text had no heading, a
value with a syntax error was read forever, and the values came in the
iteration sequence of a map.
---
 pkg/hydratables/instance.go    | 83 +++++++++++-----------------------
 pkg/renderables/typedMember.go | 10 +++-
 2 files changed, 35 insertions(+), 58 deletions(-)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 7e3cdb5..265c7f5 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -336,74 +336,45 @@ func hydrateTypedMembers(dimensionHref string, typedMember string, instanceFile
 	retMap := make(map[string]string)
 	arcs := make([]TypedDomainArc, 0)
 	order := 0
-	var stack Stack
-	stack = make([]*Concept, 0)
-	prevHref := dimensionHref
-	_, prev, err := h.HashQuery(dimensionHref)
-	dimension := prev
-	if err != nil {
-		return nil, nil
-	}
+	hrefs := []string{dimensionHref}
 	for {
 		token, err := d.Token()
 		if err == io.EOF {
 			break
 		}
-		switch token.(type) {
+		if err != nil {
+			return nil, nil
+		}
+		prevHref := hrefs[len(hrefs)-1]
+		switch elem := token.(type) {
 		case xml.StartElement:
-			startElem, ok := token.(xml.StartElement)
-			if ok {
-				startElemName := attr.Xmlns(instanceFile.XMLAttrs, startElem.Name.Space+":"+startElem.Name.Local)
-				if startElemName.Space == "" {
-					continue
-				}
-				currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
-				if err != nil {
-					return nil, nil
-				}
-				order++
-				stack.Push(curr)
-				arcs = append(arcs, TypedDomainArc{
-					From:  prevHref,
-					To:    currHref,
-					Order: float64(order),
-				})
-				prev = curr
-				prevHref = currHref
+			startElemName := attr.Xmlns(instanceFile.XMLAttrs, elem.Name.Space+":"+elem.Name.Local)
+			if startElemName.Space == "" {
+				return nil, nil
 			}
-		case xml.EndElement:
-			endElem, ok := token.(xml.EndElement)
-			if ok {
-				popped, ok := stack.Pop()
-				if !ok {
-					return nil, nil
-				}
-				endElemName := attr.Xmlns(instanceFile.XMLAttrs, endElem.Name.Space+":"+endElem.Name.Local)
-				if (popped.XMLName.Local != endElemName.Local) && (popped.XMLName.Space != endElemName.Space) {
-					return nil, nil
-				}
-				prev, ok = stack.Pop()
-				if ok {
-					stack.Push(prev)
-				} else {
-					prev = dimension
-				}
+			currHref, curr, err := h.NameQuery(startElemName.Space, startElemName.Local)
+			if err != nil || curr == nil {
+				return nil, nil
 			}
+			order++
+			arcs = append(arcs, TypedDomainArc{
+				From:  prevHref,
+				To:    currHref,
+				Order: float64(order),
+			})
+			retMap[currHref] = ""
+			hrefs = append(hrefs, currHref)
+		case xml.EndElement:
+			hrefs = hrefs[:len(hrefs)-1]
 		case xml.CharData:
-			charData, ok := token.(xml.CharData)
-			if ok {
-				str := strings.TrimSpace(string(charData))
-				if str == "" {
-					continue
-				}
-				typedDomainHref, _, err := h.NameQuery(prev.XMLName.Space, prev.XMLName.Local)
-				if err != nil {
-					return nil, nil
-				}
-				retMap[typedDomainHref] = str
+			if len(hrefs) > 1 {
+				retMap[prevHref] += string(elem)
 			}
 		}
 	}
+	for href, str := range retMap {
+		retMap[href] = strings.TrimSpace(str)
+	}
 	return retMap, arcs
 }
 
diff --git a/pkg/renderables/typedMember.go b/pkg/renderables/typedMember.go
index 67c642b..988b00f 100644
--- a/pkg/renderables/typedMember.go
+++ b/pkg/renderables/typedMember.go
@@ -27,7 +27,13 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 	labelPacks := []LabelPack{
 		dimension.Label,
 	}
-	for typedDomain, typedMember := range typedMember.TypedMembersMap {
+	taken := make(map[string]bool)
+	for _, arc := range typedMember.TypedDomainArcs {
+		typedDomain := arc.To
+		if taken[typedDomain] {
+			continue
+		}
+		taken[typedDomain] = true
 		typedDomainLabel := GetLabel(h, typedDomain)
 		ret = append(ret, RelevantMember{
 			Dimension: dimension,
@@ -35,7 +41,7 @@ func getTypedMember(typedMember hydratables.TypedMember, dimension Dimension,
 				Href:  typedDomain,
 				Label: typedDomainLabel,
 			},
-			TypedMember: typedMember,
+			TypedMember: typedMember.TypedMembersMap[typedDomain],
 		})
 	}
 	return ret, arcs, labelPacks
-- 
2.43.0


From dd4c1762dd1f0f40e8a42609c8e86851178fe38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:57 +0000
Subject: [PATCH 15/48] fix: head the values of each typed dimension with their
 own dimension

The first typed dimension of a grid was used as the heading of all typed
dimensions of the grid.
---
 pkg/renderables/contextualQuadrant.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 1d3fead..2176121 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -173,7 +173,7 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 	var dimension *Dimension
 	var makeIndents func(node *myarcs.RArc, level int, isParenthesized bool)
 	makeIndents = func(node *myarcs.RArc, level int, isParenthesized bool) {
-		if dimension == nil && node.Locator != "" {
+		if level == 1 {
 			mappedDimension, ok := allDimensionMap[node.Locator]
 			if !ok {
 				ret = VoidQuadrant{}
-- 
2.43.0


From 0b0692eb91ef4f97d8d5878ea80a923ef1f3dd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:05 +0000
Subject: [PATCH 16/48] fix: keep typed dimension headings when one typed value
 is unreadable

A single typed member without a readable value removed the headings of
all typed dimensions of the grid.
---
 pkg/renderables/contextualQuadrant.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/renderables/contextualQuadrant.go b/pkg/renderables/contextualQuadrant.go
index 2176121..5de68d9 100644
--- a/pkg/renderables/contextualQuadrant.go
+++ b/pkg/renderables/contextualQuadrant.go
@@ -221,18 +221,12 @@ func getVoidQuadrant(relevantContexts []relevantContext, segmentTypedDomainTrees
 
 func reduceTrees(trees []myarcs.RArc) myarcs.RArc {
 	ret := myarcs.RArc{}
-	hasNonblankRoots := true
 	dimensions := make([]*myarcs.RArc, 0, len(trees))
 	for _, root := range trees {
 		if root.Locator == "" && len(root.Children) > 0 {
 			dimensions = append(dimensions, root.Children...)
-		} else {
-			hasNonblankRoots = false
 		}
 	}
-	if !hasNonblankRoots {
-		return myarcs.RArc{}
-	}
 	ret.Order = 0
 	ret.Locator = ""
 	ret.Children = make([]*myarcs.RArc, 0)
-- 
2.43.0


From 8293b9985d5b47b0258c49fc8a62962f7bc2a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:17:42 +0000
Subject: [PATCH 17/48] fix: order and place every concept of a relationship
 tree

A concept first met as a parent lost its own order when it was attached
below another concept, a concept with two parents was moved to the last
one, and roots changed places when another one was attached.
---
 internal/graph/graph.go | 42 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/graph/graph.go b/internal/graph/graph.go
index d140e1b..d6b8b87 100644
--- a/internal/graph/graph.go
+++ b/internal/graph/graph.go
@@ -1,9 +1,49 @@
 package graph
 
 import (
+	"sort"
+
 	myarcs "github.com/joshuanario/arcs"
 )
 
+// Tree arranges the arcs of an arcrole as trees below a blank root. A locator
+// that several arcs lead to appears, with everything below it, in each place.
 func Tree(arcs []myarcs.Arc, arcrole string) *myarcs.RArc {
-	return myarcs.NewRArc(arcs, arcrole)
+	sort.SliceStable(arcs, func(i, j int) bool { return arcs[i].Order < arcs[j].Order })
+	outgoing := make(map[string][]myarcs.Arc)
+	isTarget := make(map[string]bool)
+	froms := make([]string, 0)
+	for _, arc := range arcs {
+		if arc.Arcrole != arcrole {
+			continue
+		}
+		if _, found := outgoing[arc.From]; !found {
+			froms = append(froms, arc.From)
+		}
+		outgoing[arc.From] = append(outgoing[arc.From], arc)
+		isTarget[arc.To] = true
+	}
+	path := make(map[string]bool)
+	var grow func(locator string, order float64) *myarcs.RArc
+	grow = func(locator string, order float64) *myarcs.RArc {
+		node := &myarcs.RArc{Locator: locator, Order: order}
+		path[locator] = true
+		taken := make(map[string]bool)
+		for _, arc := range outgoing[locator] {
+			if path[arc.To] || taken[arc.To] {
+				continue
+			}
+			taken[arc.To] = true
+			node.Children = append(node.Children, grow(arc.To, arc.Order))
+		}
+		delete(path, locator)
+		return node
+	}
+	root := &myarcs.RArc{}
+	for _, from := range froms {
+		if !isTarget[from] {
+			root.Children = append(root.Children, grow(from, 0))
+		}
+	}
+	return root
 }
-- 
2.43.0


From d952d30353861aea9cd95c0f4393eefa4411b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:04 +0000
Subject: [PATCH 18/48] fix: do not offer label roles that have no usable label

A label in a language that is not supported added its role to the page
although no label could be shown in it.
---
 pkg/renderables/label.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index ee07b3d..0bd2590 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -33,21 +33,12 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 									charData := labelLinkLabel.CharData
 									switch labelLinkLabel.Role {
 									case attr.Label:
-										if _, found := ret[Default]; !found {
-											ret[Default] = make(LanguagePack)
-										}
 										ret = appendLanguage(&labelLinkLabel, Default, charData, ret)
 										break
 									case attr.TerseLabel:
-										if _, found := ret[Terse]; !found {
-											ret[Terse] = make(LanguagePack)
-										}
 										ret = appendLanguage(&labelLinkLabel, Terse, charData, ret)
 										break
 									case attr.VerboseLabel:
-										if _, found := ret[Verbose]; !found {
-											ret[Verbose] = make(LanguagePack)
-										}
 										ret = appendLanguage(&labelLinkLabel, Verbose, charData, ret)
 										break
 									default: //noop
@@ -64,14 +55,18 @@ func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable
 }
 
 func appendLanguage(labelLinkLabel *hydratables.LabelLinkLabel, labelRole LabelRole, charData string, labelPack LabelPack) LabelPack {
+	var lang Lang
 	switch labelLinkLabel.Lang {
 	case "en", "en-US":
-		labelPack[labelRole][English] = charData
-		break
+		lang = English
 	case "es":
-		labelPack[labelRole][Español] = charData
-		break
-	default: //noop
+		lang = Español
+	default:
+		return labelPack
 	}
+	if _, found := labelPack[labelRole]; !found {
+		labelPack[labelRole] = make(LanguagePack)
+	}
+	labelPack[labelRole][lang] = charData
 	return labelPack
 }
-- 
2.43.0


From 29f9bdbe878e77576d072269fbd478ec5eba031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:13 +0000
Subject: [PATCH 19/48] fix: list the dimensions of a section once

With several definition linkbases each dimension was also looked up in
the other linkbases and listed again under its bare locator label.
---
 pkg/renderables/effectiveDomainGrid.go | 33 +++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index e363f7b..4c07b4a 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -97,7 +97,7 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 				}
 				dArcs := dArcs(arcs)
 				domainMemberNetwork := graph.Tree(dArcs, attr.DomainMemberArcrole)
-				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, h)
+				effectiveDimensions, effectiveDimensionHrefs, edLabelRoles, edLangs := getEffectiveDimensions(linkroleURI, arcs, &definition, h)
 				labelRoles = append(labelRoles, edLabelRoles...)
 				langs = append(langs, edLangs...)
 				dimensionDomainNetwork := graph.Tree(dArcs, attr.DimensionDomainArcrole)
@@ -157,27 +157,26 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 }
 
 func getEffectiveDimensions(linkroleURI string,
-	arcs []hydratables.DefinitionArc, h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
+	arcs []hydratables.DefinitionArc, definition *hydratables.DefinitionLinkbase,
+	h *hydratables.Hydratable) ([]EffectiveDimension, []string, []LabelRole, []Lang) {
 	labelPacks := []LabelPack{}
 	effectiveDimensionMap := make(map[string]bool)
 	effectiveDimensions := make([]EffectiveDimension, 0, len(arcs))
 	effectiveDimensionHrefs := make([]string, 0, len(arcs))
-	for _, definition := range h.DefinitionLinkbases {
-		for _, arc := range arcs {
-			if arc.Arcrole == attr.HypercubeDimensionArcrole {
-				dim := mapDLocatorToHref(linkroleURI, &definition, arc.To)
-				if effectiveDimensionMap[dim] {
-					continue
-				}
-				effectiveDimensionMap[dim] = true
-				effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
-				dimLabelPack := GetLabel(h, dim)
-				labelPacks = append(labelPacks, dimLabelPack)
-				effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
-					Href:  dim,
-					Label: dimLabelPack,
-				})
+	for _, arc := range arcs {
+		if arc.Arcrole == attr.HypercubeDimensionArcrole {
+			dim := mapDLocatorToHref(linkroleURI, definition, arc.To)
+			if effectiveDimensionMap[dim] {
+				continue
 			}
+			effectiveDimensionMap[dim] = true
+			effectiveDimensionHrefs = append(effectiveDimensionHrefs, dim)
+			dimLabelPack := GetLabel(h, dim)
+			labelPacks = append(labelPacks, dimLabelPack)
+			effectiveDimensions = append(effectiveDimensions, EffectiveDimension{
+				Href:  dim,
+				Label: dimLabelPack,
+			})
 		}
 	}
 	reduced := reduce(labelPacks)
-- 
2.43.0


From 99fcf2fc607198f2e85dc608936657c6c1cb0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:20 +0000
Subject: [PATCH 20/48] fix: list excluded default members only for their own
 dimension

---
 pkg/renderables/effectiveDomainGrid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 4c07b4a..3410517 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -332,7 +332,7 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			if exclusiveHypercubeHref == mapDLocatorToHref(hypercubeDimensionNode.Locator) {
 				for _, dimensionDefaultNode := range dimensionDefaultNetwork.Children {
 					defaultDimensionHref := mapDLocatorToHref(dimensionDefaultNode.Locator)
-					if excludedDefaultMembersMap[defaultDimensionHref] {
+					if defaultDimensionHref != effectiveDimensionHref {
 						continue
 					}
 					for _, defaultMemberNode := range dimensionDefaultNode.Children {
-- 
2.43.0


From f056f496fff004ddc9a56cc80f22cd0c0e6b3f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:19:28 +0000
Subject: [PATCH 21/48] fix: list the members of a dimension's own domain

Each dimension of a section listed the members of all domains of the
section, a domain without members was left out, and a member placed
twice in a domain emptied the list.
---
 pkg/renderables/effectiveDomainGrid.go | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 3410517..4e63725 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -213,6 +213,20 @@ func getPrimaryItemNetworkAndExplicitDomainNetwork(domainMemberNetwork *myarcs.R
 	return &primaryItemNetwork, &explicitDomainNetwork
 }
 
+// findDomainNode finds the members below a domain; a domain without any stands
+// for itself.
+func findDomainNode(domainNode *myarcs.RArc, network *myarcs.RArc) *myarcs.RArc {
+	for _, node := range network.Children {
+		if node.Locator == domainNode.Locator {
+			return node
+		}
+		if found := findDomainNode(domainNode, node); found != domainNode {
+			return found
+		}
+	}
+	return domainNode
+}
+
 func injectFactualQuadrant(incompleteRootDomain RootDomain, relevantContexts []relevantContext,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder,
 	langs []Lang) RootDomain {
@@ -362,12 +376,11 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 		memberHref := mapDLocatorToHref(node.Locator)
 		if isInclusive {
 			if membersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			membersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
@@ -376,12 +389,11 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 			})
 		} else {
 			if excludedMembersMap[memberHref] {
-				ret = []EffectiveMember{}
-				labelPacks = []LabelPack{}
 				return
 			}
 			excludedMembersMap[memberHref] = true
 			efMemLabel := GetLabel(h, memberHref)
+			labelPacks = append(labelPacks, efMemLabel)
 			ret = append(ret, EffectiveMember{
 				Href:            memberHref,
 				Label:           efMemLabel,
@@ -408,8 +420,8 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if inclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, true)
+						for _, domainNode := range dimensionDomainNode.Children {
+							traverseExplicitDomainNetwork(findDomainNode(domainNode, explicitDomainNetwork), true)
 						}
 					}
 				}
@@ -428,8 +440,8 @@ func getEffectiveDomain(primaryItemHref string, effectiveDimensionHref string,
 						if exclusiveDimensionHref != mapDLocatorToHref(dimensionDomainNode.Locator) {
 							continue
 						}
-						for _, node := range explicitDomainNetwork.Children {
-							traverseExplicitDomainNetwork(node, false)
+						for _, domainNode := range dimensionDomainNode.Children {
+							traverseExplicitDomainNetwork(findDomainNode(domainNode, explicitDomainNetwork), false)
 						}
 					}
 				}
-- 
2.43.0


From a975b5ef3f1d5a3eb3fcbef7517710b09754cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:47 +0000
Subject: [PATCH 22/48] fix: read role declarations from every annotation of a
 schema

Only the first appinfo of the first annotation was read, so sections
declared in others were missing from the catalog.
---
 pkg/hydratables/schema.go | 73 +++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/pkg/hydratables/schema.go b/pkg/hydratables/schema.go
index e115d82..e7803d4 100644
--- a/pkg/hydratables/schema.go
+++ b/pkg/hydratables/schema.go
@@ -86,50 +86,47 @@ func hydrateAttributeFormDefault(file *serializables.SchemaFile) string {
 }
 
 func hydrateAnnotation(file *serializables.SchemaFile) Annotation {
-	ret := Annotation{}
-	if len(file.Annotation) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	if len(file.Annotation[0].Appinfo) <= 0 {
-		return ret
-	}
-	if file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
-		return ret
-	}
-	roleTypes := make([]RoleType, 0, len(file.Annotation[0].Appinfo[0].RoleType))
-	for _, roleType := range file.Annotation[0].Appinfo[0].RoleType {
-		if roleType.XMLName.Space != attr.LINK {
-			continue
-		}
-		newRoleType := RoleType{}
-		idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
-		if idAttr == nil || idAttr.Value == "" {
-			continue
-		}
-		newRoleType.ID = idAttr.Value
-		roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
-		if roleuriAttr == nil || roleuriAttr.Value == "" {
+	roleTypes := make([]RoleType, 0)
+	for _, annotation := range file.Annotation {
+		if annotation.XMLName.Space != attr.XSD {
 			continue
 		}
-		newRoleType.RoleURI = roleuriAttr.Value
-		if len(roleType.Definition) > 0 {
-			newRoleType.Definition = roleType.Definition[0].CharData
-		}
-		if len(roleType.UsedOn) > 0 {
-			newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
-			for _, usedOn := range roleType.UsedOn {
-				if usedOn.XMLName.Space != attr.LINK {
+		for _, appinfo := range annotation.Appinfo {
+			if appinfo.XMLName.Space != attr.XSD {
+				continue
+			}
+			for _, roleType := range appinfo.RoleType {
+				if roleType.XMLName.Space != attr.LINK {
+					continue
+				}
+				newRoleType := RoleType{}
+				idAttr := attr.FindAttr(roleType.XMLAttrs, "id")
+				if idAttr == nil || idAttr.Value == "" {
 					continue
 				}
-				newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
-					CharData: usedOn.CharData,
-				})
+				newRoleType.ID = idAttr.Value
+				roleuriAttr := attr.FindAttr(roleType.XMLAttrs, "roleURI")
+				if roleuriAttr == nil || roleuriAttr.Value == "" {
+					continue
+				}
+				newRoleType.RoleURI = roleuriAttr.Value
+				if len(roleType.Definition) > 0 {
+					newRoleType.Definition = roleType.Definition[0].CharData
+				}
+				if len(roleType.UsedOn) > 0 {
+					newRoleType.UsedOn = make([]struct{ CharData string }, 0, len(roleType.UsedOn))
+					for _, usedOn := range roleType.UsedOn {
+						if usedOn.XMLName.Space != attr.LINK {
+							continue
+						}
+						newRoleType.UsedOn = append(newRoleType.UsedOn, struct{ CharData string }{
+							CharData: usedOn.CharData,
+						})
+					}
+				}
+				roleTypes = append(roleTypes, newRoleType)
 			}
 		}
-		roleTypes = append(roleTypes, newRoleType)
 	}
 	return Annotation{
 		Appinfo: Appinfo{
-- 
2.43.0


From b38624177580927ed5ccb72745e799ef5685f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:20:57 +0000
Subject: [PATCH 23/48] fix: look up the denominator of a ratio unit by its own
 name

The numerator's name was used, so USD per share showed no denominator.
---
 pkg/hydratables/measurement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 29a2838..2c76aca 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -171,7 +171,7 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
 							unit.Divide.UnitNumerator.Measure.XMLName.Local),
 						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local)
+							unit.Divide.UnitDenominator.Measure.XMLName.Local)
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From 6d512d3e2451c64b445397494fc8225469c666a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:08 +0000
Subject: [PATCH 24/48] fix: do not crash on inline facts without a usable name
 or context

A tagged element without name or contextRef, or with an unprefixed name,
ended the process. The error of a goroutine was also read and written
without synchronisation.
---
 pkg/attr/name.go            |  2 +-
 pkg/hydratables/document.go | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index e6c56b2..0f891b5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -46,7 +46,7 @@ func (np *NameProvider) ProvideXmlName(prefixed string) (*xml.Name, error) {
 	if i < 0 {
 		return &xml.Name{
 			Space: "",
-			Local: prefixed[i:],
+			Local: prefixed,
 		}, nil
 	}
 	prefix := prefix(prefixed[:i])
diff --git a/pkg/hydratables/document.go b/pkg/hydratables/document.go
index a54e030..96a73d6 100644
--- a/pkg/hydratables/document.go
+++ b/pkg/hydratables/document.go
@@ -32,20 +32,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonNumeric := range source.NonNumerics {
 		go func(nonNumeric *xmlquery.Node) {
 			defer wg1.Done()
-			if goErr != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonNumeric.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonNumeric.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock1.Lock()
+			defer lock1.Unlock()
 			if err != nil {
 				goErr = err
 				return
 			}
-			lock1.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock1.Unlock()
 		}(nnonNumeric)
 	}
 	wg1.Wait()
@@ -59,20 +59,20 @@ func HydrateDocument(folder *serializables.Folder) (*Document, error) {
 	for _, nnonFraction := range source.NonFractions {
 		go func(nonFraction *xmlquery.Node) {
 			defer wg2.Done()
-			if goErr2 != nil {
-				return
-			}
 			name := attr.FindXpathAttr(nonFraction.Attr, "name")
 			contextRef := attr.FindXpathAttr(nonFraction.Attr, "contextRef")
+			if name == nil || contextRef == nil {
+				return
+			}
 			xmlName, err := np.ProvideXmlName(name.Value)
+			lock2.Lock()
+			defer lock2.Unlock()
 			if err != nil {
 				goErr2 = err
 				return
 			}
-			lock2.Lock()
 			nret[name.Value] = *xmlName
 			cret[contextRef.Value] = true
-			lock2.Unlock()
 		}(nnonFraction)
 	}
 	wg2.Wait()
-- 
2.43.0


From 9edc97aa23d48e76cd94f69aad649a7381a42f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:36 +0000
Subject: [PATCH 25/48] fix: do not crash on contexts that are missing or have
 no entity

A fact referring to an undeclared context, a context without an entity
and a fact lookup in a filing without inline document ended the process.
---
 pkg/hydratables/instance.go    | 3 +++
 pkg/renderables/contexts.go    | 3 +++
 pkg/renderables/expressable.go | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/hydratables/instance.go b/pkg/hydratables/instance.go
index 265c7f5..f219dc2 100644
--- a/pkg/hydratables/instance.go
+++ b/pkg/hydratables/instance.go
@@ -134,6 +134,9 @@ func hydrateContexts(instanceFile *serializables.InstanceFile, h *Hydratable) []
 		}
 		item.ID = idAttr.Value
 		newEntity := Entity{}
+		if len(context.Entity) <= 0 {
+			continue
+		}
 		entity := context.Entity[0]
 		if len(entity.Identifier) <= 0 {
 			continue
diff --git a/pkg/renderables/contexts.go b/pkg/renderables/contexts.go
index f1e311c..ae33e94 100644
--- a/pkg/renderables/contexts.go
+++ b/pkg/renderables/contexts.go
@@ -214,6 +214,9 @@ func getRelevantContexts(schemedEntity string, h *hydratables.Hydratable,
 				}
 				if factualEdgeHref == fact.Href {
 					context := getContext(&instance, fact.ContextRef)
+					if context == nil {
+						continue
+					}
 					entity := context.Entity
 					contextualSchemedEntity := entity.Identifier.Scheme + "/" + entity.Identifier.CharData
 					if contextualSchemedEntity == schemedEntity {
diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 36df4e0..62294de 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -19,6 +19,9 @@ type Expressable struct {
 }
 
 func MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) ([]byte, error) {
+	if h.Document == nil {
+		return nil, nil
+	}
 	xmlname, found := h.Document.NamespaceMap[name]
 	if !found {
 		return nil, nil
@@ -42,6 +45,9 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	context := getContext(extracted, contextref)
+	if context == nil {
+		return nil, nil
+	}
 	period := periodMultilingualString(labels, context)
 	entity := stringify(&Entity{
 		Scheme:   context.Entity.Identifier.Scheme,
-- 
2.43.0


From 80d16375b0aa1e4624b86d0db9cec5d407bd7fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:45 +0000
Subject: [PATCH 26/48] fix: show only the dimensions of a looked up fact's own
 context

Typed dimensions of the concept's other contexts were mixed into the
headings, and could make all headings of the fact disappear.
---
 pkg/renderables/expressable.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/pkg/renderables/expressable.go b/pkg/renderables/expressable.go
index 62294de..da9d371 100644
--- a/pkg/renderables/expressable.go
+++ b/pkg/renderables/expressable.go
@@ -49,19 +49,13 @@ func MarshalExpressable(name string, contextref string, h *hydratables.Hydratabl
 		return nil, nil
 	}
 	period := periodMultilingualString(labels, context)
-	entity := stringify(&Entity{
-		Scheme:   context.Entity.Identifier.Scheme,
-		CharData: context.Entity.Identifier.CharData,
-	})
-	relevantContexts, segment, scenario, _ := getRelevantContexts(entity, h, []string{
-		href,
-	})
-	expressedContexts := make([]relevantContext, 0)
-	for _, relevantContext := range relevantContexts {
-		if relevantContext.ContextRef == contextref {
-			expressedContexts = append(expressedContexts, relevantContext)
-			break
-		}
+	members, segment, scenario, _ := getContextualMembers(context, h)
+	expressedContexts := []relevantContext{
+		{
+			ContextRef:   context.ID,
+			PeriodHeader: periodString(context),
+			Members:      members,
+		},
 	}
 	memberGrid, voidQuadrant := getMemberGridAndVoidQuadrant(expressedContexts, segment, scenario)
 	footnotes := h.GetFootnotes(hydratedFact)
-- 
2.43.0


From 955becfd6f573d01631ad9ce4f6f1905d77a710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:58 +0000
Subject: [PATCH 27/48] fix: show the digits of numeric facts as reported

Depending on their digits and decimals, numbers were shown with digits
lost or changed: 1001 as 11, 12.3456 with four decimals as 12.3400 and
5 in millions as 0.5.
---
 pkg/renderables/fact.go | 70 +++++++++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/pkg/renderables/fact.go b/pkg/renderables/fact.go
index 920bb57..588d445 100644
--- a/pkg/renderables/fact.go
+++ b/pkg/renderables/fact.go
@@ -3,6 +3,9 @@ package renderables
 import (
 	"fmt"
 	"math/big"
+	"regexp"
+	"strconv"
+	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
 	"ecksbee.com/telefacts/pkg/hydratables"
@@ -61,23 +64,64 @@ func SigFigs(value string, precision hydratables.Precision, concept *hydratables
 }
 
 func renderPercent(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
-	f, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero)
-	if err != nil {
-		return nil, fmt.Errorf("failed to convert fact to numeric expression")
-	}
-	percent := f.Mul(f, big.NewFloat(100).SetPrec(digits.PREC_BITS)).Text('f', -1)
-	return renderNumeric(percent, precision, g)
+	return renderScaled(value, 2, precision, g)
 }
 
 func renderNumeric(value string, precision hydratables.Precision, g rune) (*FactExpression, error) {
+	return renderScaled(value, 0, precision, g)
+}
+
+var numeral = regexp.MustCompile(`^[+-]?([0-9]+\.?([0-9]*)|\.([0-9]+))([eE]([+-]?[0-9]{1,2}))?$`)
+
+// renderScaled renders the value times ten to the given power. All digits up
+// to the precision are in the core, at least two decimals are shown.
+func renderScaled(value string, power int, precision hydratables.Precision, g rune) (*FactExpression, error) {
 	p := digits.Precision(int(precision))
-	digit, err := digits.New(p, value, g, digits.PreserveUpToHundredth)
-	if err != nil {
+	if p != digits.Exact && (p <= digits.Trillions || p >= digits.Trillionth) {
+		return nil, fmt.Errorf("precision out of bounds")
+	}
+	value = strings.TrimSpace(value)
+	parts := numeral.FindStringSubmatch(value)
+	number, ok := new(big.Rat).SetString(value)
+	if parts == nil || !ok {
 		return nil, fmt.Errorf("failed to convert fact to numeric expression")
 	}
-	return &FactExpression{
-		Head: digit.Head(),
-		Core: digit.Core(),
-		Tail: digit.Tail(),
-	}, nil
+	number.Mul(number, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(power)), nil)))
+	significant := int(p)
+	if p == digits.Exact {
+		exponent, _ := strconv.Atoi(parts[5])
+		significant = len(parts[2]) + len(parts[3]) - power - exponent
+		if significant < 0 {
+			significant = 0
+		}
+	}
+	decimals := int(digits.PreserveUpToHundredth)
+	if significant > decimals {
+		decimals = significant
+	}
+	ret := FactExpression{}
+	if number.Sign() < 0 {
+		ret.Head = "("
+	}
+	plain := number.Abs(number).FloatString(decimals)
+	dot := len(plain) - decimals - 1
+	split := dot + significant
+	if significant > 0 || p == digits.Exact {
+		split++
+	}
+	for i, digit := range plain {
+		grouped := string(digit)
+		if i > 0 && i < dot && (dot-i)%3 == 0 {
+			grouped = string(g) + grouped
+		}
+		if i < split {
+			ret.Core += grouped
+		} else {
+			ret.Tail += grouped
+		}
+	}
+	if ret.Head != "" {
+		ret.Tail += ")"
+	}
+	return &ret, nil
 }
-- 
2.43.0


From 25374a26e3b36c5304826ff3883b910adfaac1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:37 +0000
Subject: [PATCH 28/48] fix: show no unit for a ratio whose denominator is not
 registered

The numerator alone was shown, as if the fact were reported in it.
---
 pkg/hydratables/measurement.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/hydratables/measurement.go b/pkg/hydratables/measurement.go
index 2c76aca..7afcef7 100644
--- a/pkg/hydratables/measurement.go
+++ b/pkg/hydratables/measurement.go
@@ -168,10 +168,14 @@ func (h *Hydratable) FindMeasurement(unitRef string) (*Measurement, *Measurement
 						unit.Divide.UnitDenominator.Measure.CharData == "" {
 						return nil, nil
 					}
-					return queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
-							unit.Divide.UnitNumerator.Measure.XMLName.Local),
-						queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
-							unit.Divide.UnitDenominator.Measure.XMLName.Local)
+					numerator := queryUTR(unit.Divide.UnitNumerator.Measure.XMLName.Space,
+						unit.Divide.UnitNumerator.Measure.XMLName.Local)
+					denominator := queryUTR(unit.Divide.UnitDenominator.Measure.XMLName.Space,
+						unit.Divide.UnitDenominator.Measure.XMLName.Local)
+					if numerator == nil || denominator == nil {
+						return nil, nil
+					}
+					return numerator, denominator
 				}
 				return queryUTR(unit.Measure.XMLName.Space, unit.Measure.XMLName.Local), nil
 			}
-- 
2.43.0


From 60f377963c9a3dee58acb44c5759166f9346c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:46:56 +0000
Subject: [PATCH 29/48] fix: escape the text of text blocks

Text that reads like markup, such as an escaped script element, became
markup in the rendered block.
---
 pkg/renderables/textBlock.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 5fac5fe..421bf34 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -110,7 +110,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 		case html.TextToken:
 			data := strings.TrimSpace(token.Data)
 			if len(data) > 0 {
-				tokenized += data + " "
+				tokenized += gohtml.EscapeString(data) + " "
 			}
 		case html.EndTagToken:
 			switch token.Data {
-- 
2.43.0


From a68f8dd755a54898f34a2c459788da3daffb2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:32 +0000
Subject: [PATCH 30/48] fix: show text blocks that are written as CDATA
 sections

They were taken for comments and dropped.
---
 pkg/renderables/textBlock.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index 421bf34..e57e851 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -42,6 +42,25 @@ func colSpan2Helper(stack []int, cb func(int)) {
 	}
 }
 
+// unescapeXMLInner returns the character data of escaped text and CDATA sections.
+func unescapeXMLInner(inner string) string {
+	const open, end = "<![CDATA[", "]]>"
+	ret := ""
+	for {
+		i := strings.Index(inner, open)
+		if i < 0 {
+			break
+		}
+		j := strings.Index(inner[i:], end)
+		if j < 0 {
+			break
+		}
+		ret += gohtml.UnescapeString(inner[:i]) + inner[i+len(open):i+j]
+		inner = inner[i+j+len(end):]
+	}
+	return ret + gohtml.UnescapeString(inner)
+}
+
 func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder) *FactExpression {
 	_, concept, err := cf.HashQuery(fact.Href)
 	if err != nil {
@@ -54,7 +73,7 @@ func renderTextBlock(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFin
 	if !isTextBlock {
 		return nil
 	}
-	r := strings.NewReader(gohtml.UnescapeString(fact.XMLInner))
+	r := strings.NewReader(unescapeXMLInner(fact.XMLInner))
 	tokenizer := html.NewTokenizer(r)
 	tokenized := ""
 	disableBr := 0
-- 
2.43.0


From d6549d6d79cced7f5f08734beb4ff91dab0a7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:06 +0000
Subject: [PATCH 31/48] fix: limit the column span of cells in text blocks

A single cell could exhaust the memory of the process.
---
 pkg/renderables/textBlock.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/renderables/textBlock.go b/pkg/renderables/textBlock.go
index e57e851..de57c3f 100644
--- a/pkg/renderables/textBlock.go
+++ b/pkg/renderables/textBlock.go
@@ -12,6 +12,9 @@ import (
 	"golang.org/x/net/html"
 )
 
+// maxColSpan is the limit that HTML sets on column spans.
+const maxColSpan = 1000
+
 func findHtmlAttr(attrs []html.Attribute, attr string) *html.Attribute {
 	for _, a := range attrs {
 		if a.Key == attr {
@@ -26,6 +29,9 @@ func colSpanHelper(attrs []html.Attribute, cb func(int)) {
 	if a != nil {
 		colspan, err := strconv.Atoi(a.Val)
 		if err == nil {
+			if colspan > maxColSpan {
+				colspan = maxColSpan
+			}
 			for i := 0; i < colspan-1; i++ {
 				cb(colspan)
 			}
-- 
2.43.0


From b801611ddc4196703b8854dda10afc89b27a7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:12 +0000
Subject: [PATCH 32/48] fix: replace image references without rewriting the
 inline document

The document was parsed as HTML and written again, which closed
self-closing elements elsewhere, lost CDATA sections and lower-cased the
names of tagged facts and their attributes.
---
 pkg/serializables/image.go | 57 +++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/pkg/serializables/image.go b/pkg/serializables/image.go
index afa32d4..fd94a00 100644
--- a/pkg/serializables/image.go
+++ b/pkg/serializables/image.go
@@ -2,41 +2,52 @@ package serializables
 
 import (
 	"bytes"
+	"io"
 	"path/filepath"
 
 	"golang.org/x/net/html"
 )
 
 func TransformInlineImages(src []byte, images map[string]string) []byte {
-	root, err := html.Parse(bytes.NewReader(src))
-	if err != nil {
-		return src
-	}
-
-	replace(root, images)
-	transformed := make([]byte, 0)
+	tokenizer := html.NewTokenizer(bytes.NewReader(src))
+	tokenizer.AllowCDATA(true)
+	transformed := make([]byte, 0, len(src))
 	buf := bytes.NewBuffer(transformed)
-	if err = html.Render(buf, root); err != nil {
-		return src
+	for {
+		tokenType := tokenizer.Next()
+		raw := append([]byte(nil), tokenizer.Raw()...)
+		switch tokenType {
+		case html.ErrorToken:
+			if tokenizer.Err() != io.EOF {
+				return src
+			}
+			buf.Write(raw)
+			return buf.Bytes()
+		case html.StartTagToken, html.SelfClosingTagToken:
+			token := tokenizer.Token()
+			if tokenType == html.SelfClosingTagToken {
+				tokenizer.NextIsNotRawText()
+			}
+			if replace(&token, images) {
+				raw = []byte(token.String())
+			}
+		}
+		buf.Write(raw)
 	}
-	return buf.Bytes()
 }
 
-func replace(n *html.Node, images map[string]string) {
-	if n.Type == html.ElementNode {
-		if n.Data == "img" {
-			for i, myattr := range n.Attr {
-				if myattr.Key == "src" {
-					value := filepath.Base(myattr.Val)
-					if data, found := images[value]; found {
-						n.Attr[i].Val = data
-					}
+func replace(token *html.Token, images map[string]string) bool {
+	replaced := false
+	if token.Data == "img" {
+		for i, myattr := range token.Attr {
+			if myattr.Key == "src" {
+				value := filepath.Base(myattr.Val)
+				if data, found := images[value]; found {
+					token.Attr[i].Val = data
+					replaced = true
 				}
 			}
 		}
 	}
-
-	for child := n.FirstChild; child != nil; child = child.NextSibling {
-		replace(child, images)
-	}
+	return replaced
 }
-- 
2.43.0


From 317a1ee5916d3d1feee1dd93d27d6af961b88d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:35 +0000
Subject: [PATCH 33/48] fix: decode inline documents without a data race

The queries share their error variables although they run at the same
time.
---
 pkg/serializables/document.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/serializables/document.go b/pkg/serializables/document.go
index e535dfb..57dfa06 100644
--- a/pkg/serializables/document.go
+++ b/pkg/serializables/document.go
@@ -33,10 +33,10 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 		return nil
 	}
 	var html *xmlquery.Node
-	var goErr error
 	htmlDone := make(chan bool)
 	go func() {
 		defer func() { htmlDone <- true }()
+		var goErr error
 		html, goErr = xmlquery.Query(doc, "//*[local-name()='html']")
 		if html == nil {
 			fmt.Println("Error: missing html")
@@ -50,6 +50,7 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	schemaRefsDone := make(chan bool)
 	go func() {
 		defer func() { schemaRefsDone <- true }()
+		var goErr error
 		schemaRefs, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='schemaRef' and namespace-uri()='"+attr.LINK+"']")
 		if goErr != nil {
 			schemaRefs = make([]*xmlquery.Node, 0)
@@ -60,7 +61,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	contextsDone := make(chan bool)
 	go func() {
 		defer func() { contextsDone <- true }()
-		contexts, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		contexts, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='context' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			contexts = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -70,7 +72,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	unitsDone := make(chan bool)
 	go func() {
 		defer func() { unitsDone <- true }()
-		units, err = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
+		var goErr error
+		units, goErr = xmlquery.QueryAll(doc, "//*[local-name()='header' and namespace-uri()='"+attr.IX+"']//*[local-name()='resources' and namespace-uri()='"+attr.IX+"']//*[local-name()='unit' and namespace-uri()='"+attr.XBRLI+"']")
 		if goErr != nil {
 			units = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -80,7 +83,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonFractionsDone := make(chan bool)
 	go func() {
 		defer func() { nonFractionsDone <- true }()
-		nonFractions, err = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonFractions, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonFraction' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonFractions = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -90,7 +94,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	nonNumericsDone := make(chan bool)
 	go func() {
 		defer func() { nonNumericsDone <- true }()
-		nonNumerics, err = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		nonNumerics, goErr = xmlquery.QueryAll(doc, "//*[local-name()='nonNumeric' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			nonNumerics = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -100,7 +105,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	excludesDone := make(chan bool)
 	go func() {
 		defer func() { excludesDone <- true }()
-		excludes, err = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
+		var goErr error
+		excludes, goErr = xmlquery.QueryAll(doc, "//*[local-name()='exclude' and namespace-uri()='"+attr.IX+"']")
 		if goErr != nil {
 			excludes = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
@@ -110,7 +116,8 @@ func DecodeIxbrlFile(xmlData []byte) *Document {
 	footnoteRelationshipsDone := make(chan bool)
 	go func() {
 		defer func() { footnoteRelationshipsDone <- true }()
-		footnoteRelationships, err = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
+		var goErr error
+		footnoteRelationships, goErr = xmlquery.QueryAll(doc, "//*[local-name()='relationship' and namespace-uri()='"+attr.IX+"' and @arcrole='"+attr.FactFootnoteArcrole+"']")
 		if goErr != nil {
 			footnoteRelationships = make([]*xmlquery.Node, 0)
 			fmt.Printf("Error: " + goErr.Error())
-- 
2.43.0


From 6f962d77f8fe6887b8b5a085901eb2423b7e966a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:52:46 +0000
Subject: [PATCH 34/48] fix: do not crash on inline documents that cannot be
 read next to images

---
 pkg/serializables/folder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index d788093..2387244 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -57,12 +57,12 @@ func Discover(id string) (*Folder, error) {
 			return nil, err
 		}
 		doc := DecodeIxbrlFile(data)
-		if len(ret.Images) > 0 {
-			doc.Bytes = TransformInlineImages(data, ret.Images)
-		}
 		if doc == nil {
 			return nil, fmt.Errorf("failed to decode IXBRL source document")
 		}
+		if len(ret.Images) > 0 {
+			doc.Bytes = TransformInlineImages(data, ret.Images)
+		}
 		ret.Document = doc
 		extracted := filepath.Join(workingDir, entryFileName+".xml")
 		if _, err := os.Stat(extracted); errors.Is(err, os.ErrNotExist) {
-- 
2.43.0


From 776f292041e30b4423ca82c7814d17680b0248dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:43 +0000
Subject: [PATCH 35/48] fix: read every schema of a filing once

Schemas that import or include each other in a circle were read over and
over again until memory ran out.
---
 pkg/serializables/folder.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 2387244..815f969 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -16,6 +16,7 @@ import (
 
 type Folder struct {
 	wLock                 sync.Mutex
+	visited               map[string]bool
 	EntryFileName         string
 	Dir                   string
 	Document              *Document
@@ -38,6 +39,7 @@ func Discover(id string) (*Folder, error) {
 	ret := &Folder{
 		EntryFileName:         entryFileName,
 		Dir:                   workingDir,
+		visited:               make(map[string]bool),
 		Namespaces:            make(map[string]string),
 		Instances:             make(map[string]InstanceFile),
 		Schemas:               make(map[string]SchemaFile),
@@ -90,6 +92,18 @@ func Discover(id string) (*Folder, error) {
 	return ret, nil
 }
 
+// visit reports whether the schema is met for the first time, as schemas may
+// refer to each other in circles.
+func (folder *Folder) visit(href string) bool {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if folder.visited[href] {
+		return false
+	}
+	folder.visited[href] = true
+	return true
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -114,6 +128,9 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 				go DiscoverGlobalSchema(hrefAttr.Value)
 				return
 			}
+			if !folder.visit(hrefAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
@@ -173,6 +190,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
@@ -239,6 +259,9 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
 			}
+			if !folder.visit(schemaLocationAttr.Value) {
+				return
+			}
 			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
-- 
2.43.0


From 831f1d933e8d1bab4852c8e7da85a94a7811fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:24 +0000
Subject: [PATCH 36/48] fix: find concepts of all schemas that share a
 namespace

An included schema took over the namespace of the schema including it, and
concepts declared in either were no longer found, depending on timing.
---
 pkg/hydratables/query.go    | 19 +++++++++++++++++++
 pkg/serializables/folder.go |  4 +++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/hydratables/query.go b/pkg/hydratables/query.go
index 4304545..f0a69f1 100644
--- a/pkg/hydratables/query.go
+++ b/pkg/hydratables/query.go
@@ -2,6 +2,7 @@ package hydratables
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"ecksbee.com/telefacts/pkg/attr"
@@ -75,6 +76,24 @@ func (h *Hydratable) NameQuery(namespace string, localName string) (string, *Con
 			return schemaLoc + "#" + candidate.ID, &candidate, nil
 		}
 	}
+	return h.folderQuery(namespace, localName)
+}
+
+// folderQuery looks through all schemas of the folder, as several of them may
+// share a namespace.
+func (h *Hydratable) folderQuery(namespace string, localName string) (string, *Concept, error) {
+	fileNames := make([]string, 0, len(h.Schemas))
+	for fileName := range h.Schemas {
+		fileNames = append(fileNames, fileName)
+	}
+	sort.Strings(fileNames)
+	for _, fileName := range fileNames {
+		for _, candidate := range h.Schemas[fileName].Element {
+			if localName == candidate.XMLName.Local && namespace == candidate.XMLName.Space {
+				return fileName + "#" + candidate.ID, &candidate, nil
+			}
+		}
+	}
 	return "", nil, nil
 }
 
diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 815f969..6bd0b29 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -203,7 +203,9 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 				return
 			}
 			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
+			if _, found := folder.Namespaces[targetNS.Value]; !found {
+				folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
+			}
 			folder.wLock.Unlock()
 			var wwg sync.WaitGroup
 			wwg.Add(3)
-- 
2.43.0


From 273c4dbbfd4dcf901e30101e33b7be9a68e6a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:32 +0000
Subject: [PATCH 37/48] fix: keep a filing from reading files outside of its
 folder

References like ../other/secret.xsd were followed out of the folder.
---
 pkg/serializables/folder.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index 6bd0b29..af8f6a1 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -53,7 +53,10 @@ func Discover(id string) (*Folder, error) {
 	ext := filepath.Ext(entryFileName)
 	switch ext {
 	case ".xhtml", ".htm":
-		htmFilePath := filepath.Join(workingDir, entryFileName)
+		htmFilePath, err := ret.path(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		data, err := os.ReadFile(htmFilePath)
 		if err != nil {
 			return nil, err
@@ -79,7 +82,10 @@ func Discover(id string) (*Folder, error) {
 		defer ret.wLock.Unlock()
 		ret.Instances[entryFileName+".xml"] = *instanceFile
 	case ".xbrl", ".xml":
-		xmlFilePath := filepath.Join(workingDir, entryFileName)
+		xmlFilePath, err := ret.path(entryFileName)
+		if err != nil {
+			return nil, err
+		}
 		instanceFile, err := ReadInstanceFile(xmlFilePath)
 		if err != nil {
 			return nil, err
@@ -104,6 +110,13 @@ func (folder *Folder) visit(href string) bool {
 	return true
 }
 
+func (folder *Folder) path(href string) (string, error) {
+	if !filepath.IsLocal(href) {
+		return "", fmt.Errorf("%s is outside of the folder", href)
+	}
+	return filepath.Join(folder.Dir, href), nil
+}
+
 func (folder *Folder) schemaRef(file *InstanceFile) {
 	if file == nil {
 		return
@@ -131,7 +144,10 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if !folder.visit(hrefAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+			schemaFilePath, err := folder.path(hrefAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -193,7 +209,10 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.path(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -264,7 +283,10 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if !folder.visit(schemaLocationAttr.Value) {
 				return
 			}
-			schemaFilePath := filepath.Join(folder.Dir, schemaLocationAttr.Value)
+			schemaFilePath, err := folder.path(schemaLocationAttr.Value)
+			if err != nil {
+				return
+			}
 			discoveredSchema, err := ReadSchemaFile(schemaFilePath)
 			if err != nil {
 				return
@@ -335,7 +357,10 @@ func (folder *Folder) linkbaseRefSchema(file *SchemaFile) {
 						go DiscoverGlobalFile(hrefAttr.Value)
 						return
 					}
-					linkbaseFilePath := filepath.Join(folder.Dir, hrefAttr.Value)
+					linkbaseFilePath, err := folder.path(hrefAttr.Value)
+					if err != nil {
+						return
+					}
 					switch roleAttr.Value {
 					case attr.PresentationLinkbaseRef:
 						discoveredPre, err := ReadPresentationLinkbaseFile(linkbaseFilePath)
-- 
2.43.0


From 769069c9b4bc7bdb8216507d1c32138d076ce947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:40 +0000
Subject: [PATCH 38/48] fix: keep global taxonomy addresses inside the taxonomy
 set

Parent segments in the address led to files elsewhere on the disk.
---
 pkg/serializables/global.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index 0402818..d309b00 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -37,9 +37,15 @@ func UrlToFilename(urlStr string) (string, error) {
 	if len(hostname) <= 0 {
 		return "", fmt.Errorf("empty hostname")
 	}
+	if hostname == "." || hostname == ".." {
+		return "", fmt.Errorf("invalid hostname %s", hostname)
+	}
 	dest = filepath.Join(dest, hostname)
 	var splits = strings.Split(urlPath.Path, "/")
 	for _, split := range splits {
+		if split == ".." {
+			return "", fmt.Errorf("invalid path %s", urlPath.Path)
+		}
 		dest = filepath.Join(dest, split)
 	}
 	return filepath.Join(GlobalTaxonomySetPath, "concepts", dest), nil
-- 
2.43.0


From 61307debc062cce08f99a806e428599eea99c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:47 +0000
Subject: [PATCH 39/48] fix: report global taxonomy files that cannot be read

---
 pkg/serializables/global.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/pkg/serializables/global.go b/pkg/serializables/global.go
index d309b00..eece111 100644
--- a/pkg/serializables/global.go
+++ b/pkg/serializables/global.go
@@ -56,17 +56,7 @@ func DiscoverGlobalFile(urlStr string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	var ret []byte
-	if file, err := os.Stat(dest); err == nil {
-		dirString, _ := filepath.Split(dest)
-		filename := file.Name()
-		globalFilePath := filepath.Join(dirString, filename)
-		ret, err = os.ReadFile(globalFilePath)
-		if err == nil {
-			return ret, nil
-		}
-	}
-	return nil, err
+	return os.ReadFile(dest)
 }
 
 func DiscoverGlobalSchema(urlStr string) (*SchemaFile, error) {
-- 
2.43.0


From 221eb50780bc55ac7427eff8c69b33edb48a60d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:55 +0000
Subject: [PATCH 40/48] fix: report folders whose entry cannot be written

---
 pkg/serializables/underscore.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/serializables/underscore.go b/pkg/serializables/underscore.go
index 86e0d8c..1196cb1 100644
--- a/pkg/serializables/underscore.go
+++ b/pkg/serializables/underscore.go
@@ -57,7 +57,10 @@ func NewFolder(key string, underscore Underscore) (string, error) {
 		return "", err
 	}
 	meta := filepath.Join(pathStr, "_")
-	file, _ := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
+	file, err := os.OpenFile(meta, os.O_CREATE|os.O_WRONLY, 0755)
+	if err != nil {
+		return "", err
+	}
 	defer file.Close()
 	encoder := json.NewEncoder(file)
 	err = encoder.Encode(underscore)
-- 
2.43.0


From 598d992415b9c6d86a7da2aba48230207b054360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:56:53 +0000
Subject: [PATCH 41/48] fix: do not cache failures

A request that failed once was answered with empty data, or crashed, when
it was repeated.
---
 pkg/cache/cache.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index a0cdfd3..1162cde 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -49,6 +49,9 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalExpressable(name, contextref, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -91,6 +94,9 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 	}
 	byteArr, err := renderables.MarshalRenderable(hash, h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -117,6 +123,9 @@ func MarshalCatalog(id string) ([]byte, error) {
 	}
 	lock.RUnlock()
 	byteArr, err := renderables.MarshalCatalog(h)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
@@ -143,6 +152,9 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		return nil, fmt.Errorf("failed to discover folder, %v", err)
 	}
 	ret, err := hydratables.Hydrate(folder)
+	if err != nil {
+		return nil, err
+	}
 	go func() {
 		if dry {
 			return
-- 
2.43.0


From 805992ab01116c139bc13c0391ff395fbe5a8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:00 +0000
Subject: [PATCH 42/48] fix: keep cache entries of different requests apart

Different kinds of entries and different name and context pairs could share
a key and receive each other's values.
---
 pkg/cache/cache.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/cache.go b/pkg/cache/cache.go
index 1162cde..d02ab22 100644
--- a/pkg/cache/cache.go
+++ b/pkg/cache/cache.go
@@ -1,9 +1,7 @@
 package cache
 
 import (
-	"encoding/hex"
 	"fmt"
-	"hash/fnv"
 	"path/filepath"
 	"sync"
 
@@ -31,14 +29,17 @@ func NewCache(runDry bool) *gocache.Cache {
 	return appCache
 }
 
+// key gives every kind of entry its own keys, whatever the parts contain.
+func key(kind string, parts ...string) string {
+	return fmt.Sprintf("%s %q", kind, parts)
+}
+
 func MarshalExpressable(id string, name string, contextref string) ([]byte, error) {
 	h, err := hydratable(id)
 	if err != nil {
 		return nil, err
 	}
-	hash := fnv.New128a()
-	hash.Write([]byte(id + "/facts/" + name + ":" + contextref))
-	cachekey := hex.EncodeToString(hash.Sum([]byte{}))
+	cachekey := key("fact", id, name, contextref)
 	lock.RLock()
 	if !dry {
 		if x, found := appCache.Get(cachekey); found {
@@ -64,9 +65,10 @@ func MarshalExpressable(id string, name string, contextref string) ([]byte, erro
 }
 
 func MarshalRenderable(id string, hash string) ([]byte, error) {
+	cachekey := key("page", id, hash)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/" + hash); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -88,7 +90,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 			go func() {
 				lock.Lock()
 				defer lock.Unlock()
-				appCache.Set(id+"/"+hash, data, gocache.DefaultExpiration)
+				appCache.Set(cachekey, data, gocache.DefaultExpiration)
 			}()
 			return data, nil
 		}
@@ -103,7 +105,7 @@ func MarshalRenderable(id string, hash string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/"+hash, byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
@@ -113,9 +115,10 @@ func MarshalCatalog(id string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	cachekey := key("catalog", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id + "/"); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.([]byte)
 			lock.RUnlock()
 			return ret, nil
@@ -132,15 +135,16 @@ func MarshalCatalog(id string) ([]byte, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id+"/", byteArr, gocache.DefaultExpiration)
+		appCache.Set(cachekey, byteArr, gocache.DefaultExpiration)
 	}()
 	return byteArr, err
 }
 
 func hydratable(id string) (*hydratables.Hydratable, error) {
+	cachekey := key("folder", id)
 	lock.RLock()
 	if !dry {
-		if x, found := appCache.Get(id); found {
+		if x, found := appCache.Get(cachekey); found {
 			ret := x.(*hydratables.Hydratable)
 			lock.RUnlock()
 			return ret, nil
@@ -161,7 +165,7 @@ func hydratable(id string) (*hydratables.Hydratable, error) {
 		}
 		lock.Lock()
 		defer lock.Unlock()
-		appCache.Set(id, ret, gocache.DefaultExpiration)
+		appCache.Set(cachekey, ret, gocache.DefaultExpiration)
 	}()
 	return ret, err
 }
-- 
2.43.0


From 19df5d8705d73b8e522bf5be18d329bd57ab6511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:08 +0000
Subject: [PATCH 43/48] fix: decode the query of fact requests once

Names and contexts that contain a percent or plus sign were decoded twice.
---
 internal/web/web.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/internal/web/web.go b/internal/web/web.go
index 8271e47..2aa190c 100644
--- a/internal/web/web.go
+++ b/internal/web/web.go
@@ -79,16 +79,8 @@ func Expressable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		name, err := neturl.QueryUnescape(parsedquery.Get("name"))
-		if err != nil {
-			http.Error(w, "Error: "+err.Error(), http.StatusBadRequest)
-			return
-		}
-		contextref, err := neturl.QueryUnescape(parsedquery.Get("contextref"))
-		if err != nil {
-			http.Error(w, "Error: "+err.Error(), http.StatusBadRequest)
-			return
-		}
+		name := parsedquery.Get("name")
+		contextref := parsedquery.Get("contextref")
 		data, err := cache.MarshalExpressable(id, name, contextref)
 		if err != nil {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
-- 
2.43.0


From df7a0f408d5e93289132b3f1dc9c9509815bb0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:31 +0000
Subject: [PATCH 44/48] fix: declare the content type before the status is
 written

The header was set too late to be sent, and pages were served as plain text.
---
 internal/web/web.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/web/web.go b/internal/web/web.go
index 2aa190c..205dd73 100644
--- a/internal/web/web.go
+++ b/internal/web/web.go
@@ -27,8 +27,8 @@ func Catalog() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
@@ -56,8 +56,13 @@ func Renderable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
+		switch filepath.Ext(hash) {
+		case ".xhtml", ".htm":
+			w.Header().Set("Content-Type", "application/xhtml+xml")
+		default:
+			w.Header().Set("Content-Type", "application/json")
+		}
 		w.WriteHeader(http.StatusOK)
-		w.Header().Set("Content-Type", "application/json")
 		w.Write(data)
 	}
 }
@@ -86,8 +91,8 @@ func Expressable() func(http.ResponseWriter, *http.Request) {
 			http.Error(w, "Error: "+err.Error(), http.StatusInternalServerError)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
+		w.WriteHeader(http.StatusOK)
 		w.Write(data)
 	}
 }
-- 
2.43.0


From 39d75ef20574b88e795a465ff5a47055b18ccaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:58:37 +0000
Subject: [PATCH 45/48] fix: read the linkbases of a filing in a fixed sequence

Where several files say something about the same section or concept, the
answer changed from one request to the next.
---
 pkg/renderables/calculationGrid.go          |  3 ++-
 pkg/renderables/dimensionRelationshipSet.go |  3 ++-
 pkg/renderables/effectiveDomainGrid.go      |  3 ++-
 pkg/renderables/label.go                    |  3 ++-
 pkg/renderables/presentationGrid.go         |  3 ++-
 pkg/renderables/utility.go                  | 12 ++++++++++++
 6 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/renderables/calculationGrid.go b/pkg/renderables/calculationGrid.go
index 20db891..90e5796 100644
--- a/pkg/renderables/calculationGrid.go
+++ b/pkg/renderables/calculationGrid.go
@@ -47,7 +47,8 @@ func cGrid(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 
 func getSummationItems(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]SummationItem, []LabelRole, []Lang) {
-	for _, calculation := range h.CalculationLinkbases {
+	for _, fileName := range sortedNames(h.CalculationLinkbases) {
+		calculation := h.CalculationLinkbases[fileName]
 		var calculationLinks []hydratables.CalculationLink
 		for _, roleRef := range calculation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/dimensionRelationshipSet.go b/pkg/renderables/dimensionRelationshipSet.go
index da42287..03556d3 100644
--- a/pkg/renderables/dimensionRelationshipSet.go
+++ b/pkg/renderables/dimensionRelationshipSet.go
@@ -53,7 +53,8 @@ func getDRS(schemedEntity string, linkroleURI string, h *hydratables.Hydratable)
 	links := make([]DRSLink, 0, 20)
 	hrefs := make(map[string]int)
 
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedNames(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 4e63725..12bad16 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -63,7 +63,8 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, definition := range h.DefinitionLinkbases {
+	for _, fileName := range sortedNames(h.DefinitionLinkbases) {
+		definition := h.DefinitionLinkbases[fileName]
 		var definitionLinks []hydratables.DefinitionLink
 		for _, roleRef := range definition.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/label.go b/pkg/renderables/label.go
index 0bd2590..a5b1e06 100644
--- a/pkg/renderables/label.go
+++ b/pkg/renderables/label.go
@@ -21,7 +21,8 @@ func GetLabel(h *hydratables.Hydratable, href string) LabelPack {
 
 func appendLabelModifiersFromHref(labelPack LabelPack, h *hydratables.Hydratable, href string) LabelPack {
 	ret := labelPack
-	for _, labels := range h.LabelLinkbases {
+	for _, fileName := range sortedNames(h.LabelLinkbases) {
+		labels := h.LabelLinkbases[fileName]
 		for _, labelLink := range labels.LabelLink {
 			for _, loc := range labelLink.Locs {
 				if loc.Href == href {
diff --git a/pkg/renderables/presentationGrid.go b/pkg/renderables/presentationGrid.go
index 6cc34a8..ff7d3ec 100644
--- a/pkg/renderables/presentationGrid.go
+++ b/pkg/renderables/presentationGrid.go
@@ -70,7 +70,8 @@ func pArcs(pArcs []hydratables.PresentationArc) []myarcs.Arc {
 
 func getIndentedLabels(linkroleURI string, h *hydratables.Hydratable) ([]IndentedLabel, []LabelPack) {
 	labelPacks := make([]LabelPack, 0, 100)
-	for _, presentation := range h.PresentationLinkbases {
+	for _, fileName := range sortedNames(h.PresentationLinkbases) {
+		presentation := h.PresentationLinkbases[fileName]
 		var presentationLinks []hydratables.PresentationLink
 		for _, roleRef := range presentation.RoleRefs {
 			if linkroleURI == roleRef.RoleURI {
diff --git a/pkg/renderables/utility.go b/pkg/renderables/utility.go
index 38232a3..8f8bd4d 100644
--- a/pkg/renderables/utility.go
+++ b/pkg/renderables/utility.go
@@ -1,5 +1,7 @@
 package renderables
 
+import "sort"
+
 func stringInSlice(a string, list []string) bool {
 	for _, b := range list {
 		if b == a {
@@ -20,3 +22,13 @@ func dedup(arr []string) []string {
 	}
 	return ret
 }
+
+// sortedNames gives files a fixed sequence.
+func sortedNames[T any](files map[string]T) []string {
+	ret := make([]string, 0, len(files))
+	for name := range files {
+		ret = append(ret, name)
+	}
+	sort.Strings(ret)
+	return ret
+}
-- 
2.43.0


From 63b4c48207def9821d778b6c1c14af6ab6d215a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:44 +0000
Subject: [PATCH 46/48] fix: choose the location of a namespace independently
 of scheduling

When a namespace had several locations, the one recorded last won, which
differed from run to run.
---
 pkg/serializables/folder.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pkg/serializables/folder.go b/pkg/serializables/folder.go
index af8f6a1..8a153dc 100644
--- a/pkg/serializables/folder.go
+++ b/pkg/serializables/folder.go
@@ -110,6 +110,16 @@ func (folder *Folder) visit(href string) bool {
 	return true
 }
 
+// locate records where a namespace is declared. Of several locations the first
+// by name is kept, as they are met in no particular sequence.
+func (folder *Folder) locate(namespace string, location string) {
+	folder.wLock.Lock()
+	defer folder.wLock.Unlock()
+	if known, found := folder.Namespaces[namespace]; !found || location < known {
+		folder.Namespaces[namespace] = location
+	}
+}
+
 func (folder *Folder) path(href string) (string, error) {
 	if !filepath.IsLocal(href) {
 		return "", fmt.Errorf("%s is outside of the folder", href)
@@ -156,9 +166,7 @@ func (folder *Folder) schemaRef(file *InstanceFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[targetNS.Value] = hrefAttr.Value
-			folder.wLock.Unlock()
+			folder.locate(targetNS.Value, hrefAttr.Value)
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -221,11 +229,7 @@ func (folder *Folder) includeSchema(file *SchemaFile) {
 			if targetNS == nil || targetNS.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			if _, found := folder.Namespaces[targetNS.Value]; !found {
-				folder.Namespaces[targetNS.Value] = schemaLocationAttr.Value
-			}
-			folder.wLock.Unlock()
+			folder.locate(targetNS.Value, schemaLocationAttr.Value)
 			var wwg sync.WaitGroup
 			wwg.Add(3)
 			go func() {
@@ -273,9 +277,7 @@ func (folder *Folder) importSchema(file *SchemaFile) {
 			if schemaLocationAttr == nil || schemaLocationAttr.Value == "" {
 				return
 			}
-			folder.wLock.Lock()
-			folder.Namespaces[namespaceAttr.Value] = schemaLocationAttr.Value
-			folder.wLock.Unlock()
+			folder.locate(namespaceAttr.Value, schemaLocationAttr.Value)
 			if attr.IsValidUrl(schemaLocationAttr.Value) {
 				go DiscoverGlobalSchema(schemaLocationAttr.Value)
 				return
-- 
2.43.0


From a39d8ae5bd4d71908f0e057d1bfd9aa1a2842cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:32 +0000
Subject: [PATCH 47/48] fix: show the facts of all dimensional groups in the
 same languages, whatever the sequence of the groups

---
 pkg/renderables/effectiveDomainGrid.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderables/effectiveDomainGrid.go b/pkg/renderables/effectiveDomainGrid.go
index 12bad16..3e44e0e 100644
--- a/pkg/renderables/effectiveDomainGrid.go
+++ b/pkg/renderables/effectiveDomainGrid.go
@@ -60,6 +60,7 @@ func dArcs(dArcs []hydratables.DefinitionArc) []myarcs.Arc {
 func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hydratable,
 	factFinder FactFinder, conceptFinder ConceptFinder, measurementFinder MeasurementFinder) ([]RootDomain, []LabelRole, []Lang) {
 	ret := []RootDomain{}
+	columns := [][]relevantContext{}
 	labelRoles := []LabelRole{}
 	langs := []Lang{}
 	labelPacks := make([]LabelPack, 0, 100)
@@ -148,12 +149,15 @@ func getRootDomains(schemedEntity string, linkroleURI string, h *hydratables.Hyd
 						labelRoles = append(labelRoles, dLabelRoles...)
 						langs = append(langs, dLangs...)
 					}
-					rootDomain = injectFactualQuadrant(rootDomain, relevantContexts, factFinder, conceptFinder, measurementFinder, langs)
 					ret = append(ret, rootDomain)
+					columns = append(columns, relevantContexts)
 				}
 			}
 		}
 	}
+	for i := range ret {
+		ret[i] = injectFactualQuadrant(ret[i], columns[i], factFinder, conceptFinder, measurementFinder, langs)
+	}
 	return ret, labelRoles, langs
 }
 
-- 
2.43.0


From b3ae92079f0736dd08038435687e95474fd6bf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:35 +0000
Subject: [PATCH 48/48] fix: do not crash on a document that declares many
 prefixes like a standard one

---
 pkg/attr/name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/attr/name.go b/pkg/attr/name.go
index 0f891b5..483a1c5 100644
--- a/pkg/attr/name.go
+++ b/pkg/attr/name.go
@@ -149,5 +149,5 @@ func toChar(i int) string {
 	if i < len(arr) {
 		return arr[i]
 	}
-	return arr[len(arr)-1] + toChar(i-len(arr)-1)
+	return arr[len(arr)-1] + toChar(i-len(arr))
 }
-- 
2.43.0

