#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

R = "pkg/renderables/"; H = "pkg/hydratables/"; S = "pkg/serializables/"
PAGE = "the page JSON returned for a catalog link (library call or GET /folders/{id}/{link})"
CAT = "the catalog JSON returned for a folder (library call or GET /folders/{id})"

p("C01", "Catalog lists every entity and every section of a filing exactly once",
  "The catalog of a filing lists each distinct reporting entity of its contexts once, ordered by scheme and identifier, and each distinct section (role URI and definition) declared by any schema of the filing once, ordered by title and then URI. An entity is named from the name registry when it is listed there and by its scheme and identifier otherwise. The document name is the entry file for inline filings and empty for plain ones.",
  ["inputs"], "all filings with any number of contexts, entities, schemas, annotations and role declarations, with or without a name registry entry",
  "The suite compares the catalogs of two fixed sample filings, each with one entity and one schema; it says nothing about several entities, several schemas or annotations, duplicates or missing names.",
  [R+"catalog.go", R+"relationshipSet.go", R+"contexts.go", H+"schema.go", H+"query.go", S+"global.go"],
  [("role declarations gathered from schemas", H+"schema.go hydrateAnnotation"), ("entities and sections deduplicated and sorted", R+"relationshipSet.go, "+R+"contexts.go"), ("entity name lookup with fallback", H+"query.go EntityQuery")],
  [CAT])

p("C02", "Every catalog link opens the page of exactly its entity and section",
  "A catalog holds one link for every pair of listed entity and section, different pairs have different links, and opening a link returns the page whose subject and section are that pair. Opening a link that is not in the catalog is answered with an error and never with a page. A link keeps its value when unrelated parts of the filing change.",
  ["inputs"], "all catalogs with several entities and sections (titles and URIs that share prefixes or differ in one character), and all strings that are not links of the catalog",
  "The tests open one hard-coded link per sample filing; no test opens every link, a wrong link, or a catalog in which pairs are easily confused.",
  [R+"catalog.go", R+"renderable.go"],
  [("link derived from entity, URI and title", R+"catalog.go hash"), ("page located by recomputing links", R+"renderable.go MarshalRenderable")],
  [CAT, PAGE])

p("C03", "Section rows are the presentation tree in order, with depth as indentation",
  "The rows of a section are the presentation relationships of that section walked depth first: every concept placed in the tree is one row per place, each row follows its parent's row and the whole subtrees of its earlier siblings, siblings are in increasing order value, and the indentation is the depth. No relationship is lost, invented or moved, whatever the sequence in which relationships and locators are written. Relationships of other sections or of other relationship kinds add nothing.",
  ["inputs"], "all acyclic presentation networks (several roots, any depth, concepts placed under several parents, fractional and repeated order values, arcs and locators in any textual sequence, one network split over several links, other sections beside it)",
  "One balance sheet and one details page are inspected at a few rows, and those sample files list arcs in display order, so order and placement errors cannot show.",
  [R+"presentationGrid.go", R+"concepts.go", "internal/graph/graph.go", H+"presentationLinkbase.go"],
  [("tree built from arcs", "internal/graph/graph.go Tree"), ("depth-first walk with sibling sort", R+"presentationGrid.go getIndentedLabels"), ("links of one role merged", H+"presentationLinkbase.go")],
  [PAGE+": presentation row list"])

p("C04", "Columns are exactly the entity's contexts that report on the grid's rows",
  "In the presentation grid, in every calculation group and in every dimensional group of a page, the columns are exactly the contexts of the page's entity in which at least one non-abstract row concept has a fact, each exactly once. Columns are ordered by their period text and, within a period, by increasing number of dimension members. A context of another entity never yields a column.",
  ["inputs"], "all filings with several entities and contexts sharing periods, dimensions or both, in any textual sequence, with facts on any subset of concepts",
  "Tests count the columns of two sample pages, all belonging to one entity.",
  [R+"contexts.go", R+"presentationGrid.go", R+"calculationGrid.go", R+"effectiveDomainGrid.go", H+"instance.go"],
  [("relevant contexts collected per grid", R+"contexts.go getRelevantContexts"), ("column ordering", R+"contexts.go sortContexts")],
  [PAGE+": period headers and grid widths"])

p("C05", "Each fact is shown at its own concept and context and nowhere else",
  "The cell at a row and a column of any grid shows the fact reported for that row's concept in that column's context: 'nil' for a nil fact, the content exactly as written for a non-numeric fact, and nothing when no such fact is reported. Every reported fact of the page's entity whose concept is a row of the grid is shown. No value of another concept, context or entity is ever shown in a cell.",
  ["inputs"], "all filings with at most one fact per concept and context: any mix of numeric, text and nil facts over many contexts, entities and several taxonomies, in any textual sequence, with and without fact ids",
  "Tests look at a handful of cells of fixed pages; misplacement that needs particular id orders, shared local names, several entities or repeated concepts is not reached.",
  [R+"factualQuadrant.go", R+"fact.go", H+"fact.go", H+"instance.go", H+"query.go"],
  [("fact lookup by concept and context", H+"fact.go FindFact"), ("concept resolution by namespace and name", H+"query.go NameQuery"), ("cell rendering", R+"fact.go render")],
  [PAGE+": fact cells"])

p("C06", "Dimension headings show every column's members, explicit and typed",
  "Above each grid there is exactly one heading row for every explicit dimension used by its columns, and for every typed dimension one row for the dimension followed by one row for each of its value elements, indented by nesting. The heading cell of a column shows the member, or the typed value, that this column's context has for that dimension, and is empty when the context has none. The page never shows a member of one context or dimension under another.",
  ["inputs"], "all sets of contexts mixing explicit and typed dimensions in segments and scenarios, with each dimension kept to one of the two containers",
  "One sample page has a single typed dimension and one has explicit ones; combinations of several typed dimensions, or typed with explicit, are never rendered by the tests (and the typed test cannot run offline).",
  [R+"contextualQuadrant.go", R+"contexts.go", R+"typedMember.go", H+"instance.go"],
  [("member rows and cells", R+"contextualQuadrant.go getMemberGridAndVoidQuadrant"), ("typed value parsing", H+"instance.go hydrateTypedMembers")],
  [PAGE+": dimension heading rows and member cells"])

p("C07", "Period headings state each context's period in every listed language",
  "Every column heading carries the context's period as written and a text in each language the page lists: in English an instant reads 'as of <date>' and a period of at least 30 days reads '<n> month(s) ended <end date>', in Spanish 'al <date>' and 'un mes terminado al'/'<n> meses terminados al <end date>', where n is the number of calendar months the period touches. Shorter periods, and dates that are not plain calendar dates, are shown as written.",
  ["inputs"], "all instants and start/end pairs (leap years, month ends, year ends, one-day to multi-year spans, date-times), on pages with any languages",
  "Tests compare one instant of one page; month counting, thresholds, Spanish and leap years are never exercised.",
  [R+"formatPeriod.go", R+"english.go", R+"spanish.go", R+"contexts.go", R+"expressable.go"],
  [("month counting", R+"formatPeriod.go monthCount"), ("date phrases", R+"english.go formatEnglishDates, "+R+"spanish.go formatSpanishDates")],
  [PAGE+": period headers", "the period of a fact lookup answer"])

p("C08", "A displayed number always reads back as the reported number",
  "For every numeric fact with a stated accuracy of -11 to 11 decimals or INF, removing grouping marks from the displayed text and reading parentheses as a minus sign gives the reported value (times one hundred for percentages) rounded to no fewer decimals than stated and never fewer than two. Thousands are grouped by comma in English and by space in Spanish, negative values and only those are parenthesised, and for numbers that are not percentages the emphasised part ends at the last digit covered by the stated accuracy. Facts whose accuracy or content is not usable as a number are shown as written.",
  ["inputs"], "all decimal numerals (sign, leading and trailing zeros, up to about 30 digits, any number of decimals) combined with every accuracy, as plain or percent items, in every language",
  "Tests check the text of a single rate; digits are processed by arithmetic whose errors depend on the number and accuracy together.",
  [R+"fact.go", R+"english.go", R+"spanish.go", H+"instance.go", H+"precision.go"],
  [("number split and grouping", R+"fact.go SigFigs"), ("accuracy parsing", H+"instance.go hydrateFacts")],
  [PAGE+": fact cells", "fact lookup answers"])

p("C09", "Displayed units and percent signs are those of the fact's own unit",
  "A numeric fact whose unit is registered is shown with that unit: its symbol before the number when the registry gives one, otherwise its name after the number, and for a ratio a slash followed by the symbol or name of the denominator's own unit. Percent items end in a percent sign and show no unit name. A fact whose unit is not registered shows no unit, and no fact ever shows the unit of another fact.",
  ["inputs"], "all unit declarations (simple or ratio, any registered or unregistered numerator and denominator, several units per filing) combined with monetary, per-share, share, pure and percent items",
  "Only one fact's text is tested and its unit is pure; ratios, symbols and unknown units are not.",
  [H+"measurement.go", R+"english.go", R+"spanish.go", H+"instance.go", S+"measurement.go"],
  [("unit registry lookup", H+"measurement.go FindMeasurement"), ("symbol and name placement", R+"english.go, "+R+"spanish.go")],
  [PAGE+": fact cells"])

p("C10", "Concept labels are exactly those the label linkbases assign",
  "Every concept shown on a page (row, dimension, member, summation item, contributor) carries its reference, its short reference, and exactly the standard, terse and verbose labels in English ('en' or 'en-US') and Spanish ('es') that the filing's label linkbases connect to that concept, with text unchanged. Labels of other concepts, roles or languages are never attached.",
  ["inputs"], "all label networks with at most one label per concept, role and language: shared or separate locators, one arc reaching several label resources, several links and several linkbase files, any text",
  "Tests count roles and languages of one page; they never compare label texts, nor cover Spanish, 'en', several linkbases or shared resources.",
  [R+"label.go", R+"labelPack.go", H+"labelLinkbase.go", S+"labelLinkbaseFile.go"],
  [("label assembly per concept", R+"label.go GetLabel"), ("label linkbase parsing", H+"labelLinkbase.go")],
  [PAGE+": label packs", "fact lookup labels"])

p("C11", "Page lists every available language and label role, and nothing else",
  "The language list of a page contains every language in which any row, member or dimension label of the page is available, and its role list every label role so available, each once; both contain nothing that no label of the page offers. Every displayed fact cell that is neither empty nor nil carries a text in each of the languages among English and Spanish that its grid's labels offer.",
  ["inputs", "schedules"], "all pages whose labels mix roles and languages unevenly over presentation, dimensional and calculation grids, under any scheduling of the concurrent grid construction",
  "The three grids are assembled concurrently and the lists are merged afterwards; a test on one schedule with uniform labels shows nothing about lost or surplus entries.",
  [R+"renderable.go", R+"labelPack.go", R+"presentationGrid.go", R+"calculationGrid.go", R+"effectiveDomainGrid.go"],
  [("label packs reduced to roles and languages", R+"labelPack.go reduce, destruct"), ("merging over grids", R+"renderable.go MarshalRenderable")],
  [PAGE+": language and role lists, fact cells"])

p("C12", "Calculation groups list each total's contributors with sign and weight",
  "For a section, the calculation groups are exactly the concepts that are totals of at least one summation relationship of that section, each once and ordered by reference, with their contributors in increasing order value. Each contributor shows the sign and magnitude of its weight, its own balance type and whether it is itself a total of the section. The group's fact rows are the contributors in that order followed by the total.",
  ["inputs"], "all calculation networks (shared contributors, nested totals, positive and negative weights, arcs in any textual sequence, split over several links, sections next to each other)",
  "No test inspects a calculation grid at all.",
  [R+"calculationGrid.go", R+"concepts.go", H+"calculationLinkbase.go"],
  [("arcs grouped by total", R+"calculationGrid.go getSummationItems"), ("weights parsed", H+"calculationLinkbase.go")],
  [PAGE+": calculation groups"])

p("C13", "The dimensional relationship view shows every definition arc unchanged",
  "For a section, the dimensional relationship view contains one link for every definition relationship of that section, joining the two concepts the relationship names, with the kind, order, closed, usable (true unless stated otherwise), context element, default and target role that the filing states, and no other links. Its nodes are exactly the concepts joined, each once, ordered by reference.",
  ["inputs"], "all definition networks over the six dimensional relationship kinds with every combination of attributes present or absent, in any textual sequence, with target roles and several sections",
  "No test inspects the view.",
  [R+"dimensionRelationshipSet.go", H+"definitionLinkbase.go", R+"concepts.go"],
  [("arc attributes parsed", H+"definitionLinkbase.go"), ("links and nodes assembled", R+"dimensionRelationshipSet.go getDRS")],
  [PAGE+": dimensional relationship nodes and links"])

p("C14", "Dimensional groups show primary items and their effective members",
  "For a section, the dimensional groups are exactly the roots of the domain-member trees that are not a dimension's domain or default, each listing its descendants depth first with sibling order and level. The dimensions listed are those of the section's hypercubes, and a row that a hypercube is attached to lists for each dimension of that hypercube its default member and its domain with all members below it, marked as excluded when the hypercube is of the excluding kind; no member of another dimension is listed.",
  ["inputs"], "all definition networks with several line-item trees, hypercubes, dimensions and domains, in which each dimension reaches a row through at most one hypercube of each kind",
  "One sample page with one hypercube and one dimension (which cannot run offline) and a count on another; several dimensions in one section are never checked.",
  [R+"effectiveDomainGrid.go", R+"definitionGrid.go", "internal/graph/graph.go"],
  [("primary item and domain trees separated", R+"effectiveDomainGrid.go getPrimaryItemNetworkAndExplicitDomainNetwork"), ("effective members", R+"effectiveDomainGrid.go getEffectiveDomain")],
  [PAGE+": dimensional groups"])

p("C15", "Each fact cell points to exactly the footnotes linked to that fact",
  "In every grid the footnote numbers of a cell, looked up in that grid's footnote list, are exactly the footnotes that the filing links to the cell's fact, and a cell without footnotes has no numbers. The list contains every footnote referred to in the grid once with its content as written, and nothing else. A fact lookup returns the same footnotes.",
  ["inputs"], "all footnote networks: several footnotes per fact, footnotes shared by facts, several footnote links, links without arcs, arcs in any textual sequence, labels equal to or different from ids",
  "The only footnote test looks at one cell with one footnote, and cannot run offline.",
  [H+"fact.go", R+"factualQuadrant.go", R+"expressable.go", H+"instance.go"],
  [("footnotes of a fact", H+"fact.go GetFootnotes"), ("footnote numbering", R+"factualQuadrant.go getFactualQuadrant")],
  [PAGE+": footnote grid and list", "fact lookup footnotes"])

p("C16", "Looking up an inline fact returns that fact's own page view",
  "For an inline filing, looking up the name and context of a tagged fact returns the concept's reference and labels, the context's period and dimension members, the fact's text and its footnotes, identical to what the section pages show for that fact. A name or context that tags no fact in the document, or a pair for which nothing is reported, gives an empty answer and not another fact. A plain filing gives an empty answer or an error for every lookup.",
  ["inputs"], "all inline filings with any numeric and text facts, prefixes and contexts, and all pairs of names and contexts whether tagged or not",
  "One fact of one sample document is looked up.",
  [R+"expressable.go", H+"document.go", S+"document.go", "pkg/attr/name.go", H+"fact.go"],
  [("tag names resolved through document prefixes", H+"document.go HydrateDocument"), ("fact lookup", R+"expressable.go MarshalExpressable")],
  ["the JSON returned by a fact lookup (library call or GET /folders/{id}/facts)"])

p("C17", "Text blocks keep their text and tables but no other or active markup",
  "The rendered text block contains no markup other than table, row, cell and line-break elements without attributes, for any content of the fact, however often escaped. Every piece of text of the block appears in it, in the original sequence and table cell, as text; words that are apart stay apart, and paragraphs, headings and divisions outside of tables start on a new line. A cell that spans several columns occupies that many cells of its row.",
  ["inputs"], "all text block contents: nested elements, tables within tables, spans, escaped and doubly escaped markup, unbalanced and hostile markup, any characters",
  "One narrative page is rendered and only its presence is checked.",
  [R+"textBlock.go"],
  [("token filter", R+"textBlock.go renderTextBlock")],
  [PAGE+": inner HTML of fact cells", "fact lookup answers"])

p("C18", "Inline documents are served unchanged except for embedded local images",
  "Requesting an inline filing's document returns the document as stored when the folder holds no PNG or JPEG file. Otherwise every image whose file name is that of a PNG or JPEG file in the folder is replaced by a data URI of that file's exact bytes and type, every other image reference is left alone, and the text and all other elements and attributes are the same as in the stored document. Images are recognised by content and not by file name.",
  ["inputs"], "all well-formed inline documents and folder contents: images in sub-paths or with URLs, same base names, non-image files with image names, missing images, several uses of one image",
  "One sample with one image and one with a broken image are checked for non-emptiness.",
  [S+"folder.go", S+"image.go", "pkg/cache/cache.go"],
  [("image discovery", S+"folder.go processImages"), ("source replacement", S+"image.go TransformInlineImages")],
  ["GET /folders/{id}/{document}"])

p("C19", "Discovery reaches every schema and linkbase a filing refers to",
  "Starting from the schemas an instance refers to, every schema in the folder reachable through imports and includes, in any shape including cycles and shared targets, and every presentation, definition, calculation and label linkbase any of them refers to takes part in the filing: its sections, concepts, facts and relationships are shown. Files that nothing refers to take no part. A missing or broken referenced file removes only its own contribution.",
  ["inputs"], "all reference graphs over schemas (imports, includes, cycles, diamonds, several entry schemas, global taxonomies by URL) and linkbases, with any subset of the files missing or malformed",
  "Sample filings have one local schema with four linkbases and no local imports, includes or missing files.",
  [S+"folder.go", S+"global.go", H+"query.go", H+"global.go"],
  [("recursive discovery", S+"folder.go schemaRef, importSchema, includeSchema, linkbaseRefSchema"), ("namespace to schema map", S+"folder.go")],
  [CAT, PAGE], state=[("discovered schemas and linkbases", "which files take part in the filing", S+"folder.go Folder")])

p("C20", "The same filing always gives byte-identical answers",
  "Catalog, pages, fact lookups and served documents of a filing whose files do not change are byte-for-byte the same every time they are produced, in the same or in a different process. This includes the sequence of every list in the answer.",
  ["inputs", "schedules", "histories"], "all filings, including several linkbases per section, many languages, footnotes and typed members; repeated production in one process and in separate processes under any scheduling",
  "Each test produces each answer once, and compares it field by field with tolerance for order.",
  [R+"renderable.go", R+"labelPack.go", R+"factualQuadrant.go", R+"calculationGrid.go", R+"typedMember.go", R+"label.go", S+"folder.go"],
  [("sorting of collected items", R+"*.go"), ("merging of concurrent results", R+"renderable.go, "+S+"folder.go")],
  [CAT, PAGE, "fact lookup answers", "served documents"])

p("C21", "Caching never changes an answer, whatever was asked before",
  "With caching on, every request of any sequence of catalog, page, document and fact requests over any folders is answered exactly as if it were the only request ever made: same content on success and an error where it would be an error, also when repeated. Requests for one folder, link or fact never receive the answer of another.",
  ["histories"], "all sequences of valid and invalid requests over several folders, including repeated failures and names that could be confused with each other",
  "No test uses the caching layer.",
  ["pkg/cache/cache.go", H+"global.go", "internal/web/web.go"],
  [("cache keys per folder, link and fact", "pkg/cache/cache.go")],
  ["GET /folders/{id}, /folders/{id}/{link}, /folders/{id}/facts"], state=[("cached answers", "bytes stored per key", "pkg/cache/cache.go appCache")])

p("C22", "Concurrent requests get the same answers as sequential ones, without races",
  "When any requests for any folders are made at the same time, including first requests for a folder that is not loaded yet, every one of them receives the answer it would receive alone, none is lost or mixed up, and no unsynchronised access to shared memory occurs.",
  ["schedules", "inputs"], "all sets of simultaneous requests on fresh and warm caches and all interleavings of their processing",
  "Every test is sequential and none is run with a race detector.",
  ["pkg/cache/cache.go", H+"global.go", H+"document.go", R+"renderable.go", S+"folder.go", S+"document.go"],
  [("read/write locks around caches", "pkg/cache/cache.go, "+H+"global.go"), ("per-request goroutines joined before use", R+"renderable.go, "+S+"document.go, "+H+"document.go")],
  ["HTTP answers", "race detector reports"])

p("C23", "Malformed filings never crash, hang or disturb the service",
  "For any content of the files in a folder, every request for it is answered with data or an error within bounded time; the process never crashes or hangs. Other folders served by the same process keep giving their correct answers afterwards.",
  ["inputs", "fault_sequences"], "all folders derived from valid filings by deleting, duplicating, truncating, renaming or altering elements, attributes, text and files, including dangling and cyclic references",
  "All tests use well-formed samples.",
  [H+"instance.go", H+"document.go", R+"contexts.go", R+"expressable.go", S+"folder.go", S+"document.go", "pkg/attr/name.go", R+"textBlock.go"],
  [("presence checks on attributes and references", H+"*.go"), ("errors returned to the caller", "pkg/cache/cache.go, internal/web/web.go")],
  ["process liveness and HTTP answers"])

p("C24", "A filing can only use its own folder and the global taxonomy store",
  "Whatever relative paths or URLs a filing's files contain, no file outside that filing's folder and outside the concept area of the global taxonomy store contributes to any answer for it. A URL maps to the file below the concept area given by its scheme, host and path, and no two URLs map to the same file because of parent segments; no request path reaches a directory outside the folder store.",
  ["inputs"], "all references (schema, import, include, linkbase, image, entry file, URL) containing parent segments, absolute paths, repeated or escaped separators, odd hosts and schemes",
  "No test uses a hostile path.",
  [S+"global.go", S+"folder.go", S+"underscore.go"],
  [("URL to file mapping", S+"global.go UrlToFilename"), ("relative file resolution", S+"folder.go")],
  [CAT, PAGE, "served documents"])

p("C25", "Registering a folder is keyed, never overwrites, and can be read back",
  "Registering with a key always yields the same id for the same key and different ids for different keys; the first registration creates the folder with exactly the given entry and note and any later one reports that it exists and changes nothing, also when made at the same time. Registering without a key always creates a new folder with a new id. The entry file of a registered folder is read back exactly as given.",
  ["histories", "inputs", "schedules"], "all sequences and concurrent sets of registrations with arbitrary keys, entries and notes, on empty and populated stores",
  "No test registers a folder.",
  [S+"underscore.go"],
  [("id derived from key", S+"underscore.go NewFolder"), ("atomic directory creation", S+"underscore.go")],
  ["returned ids and errors", "files in the store", "entry file read-back"])

p("C26", "The HTTP interface exposes the library's answers faithfully",
  "For each of the catalog, page, document and fact routes, a request that the library can answer returns status 200 with exactly the library's bytes, declared as JSON for data and as markup for documents, and a request that it cannot answer returns an error status with no data (a lookup that finds nothing may also be an empty answer). Names and contexts passed in the query reach the lookup unchanged. Only GET is served.",
  ["inputs", "configurations"], "all methods, folder ids, links, names and contexts, known and unknown, with any characters legal in them",
  "No test makes an HTTP request.",
  ["internal/web/web.go", "pkg/cache/cache.go"],
  [("routes and status mapping", "internal/web/web.go")],
  ["HTTP status, headers and body"])

p("C27", "Answers depend on what a filing says and not on how it is written",
  "Rewriting a filing without changing its meaning leaves catalog, pages and fact lookups unchanged: reordering facts, contexts, units, locators, arcs, labels, declarations and attributes, renaming namespace prefixes and locator labels, changing comments and insignificant white space, splitting or joining links of one role, and re-encoding files (UTF-8, ISO-8859-1). Only the sequence of entries for which the filing states no order may differ.",
  ["inputs"], "all filings and all sequences of such rewritings",
  "Sample filings come from two filing tools, each with one fixed style.",
  [S+"instanceFile.go", S+"schemaFile.go", H+"instance.go", "pkg/attr/attr.go", H+"presentationLinkbase.go", H+"labelLinkbase.go"],
  [("namespace-aware matching", "pkg/attr/attr.go Xmlns"), ("sorting by id and order", H+"instance.go"), ("character set decoding", S+"*.go")],
  [CAT, PAGE, "fact lookup answers"])

p("C28", "A page does not depend on other entities, sections and concepts",
  "Adding to a filing what concerns only others leaves the page of an entity and section as it is: contexts and facts of another entity, another section with its relationships, labels, facts and footnotes of concepts the page does not mention, and concepts and units nothing refers to. The same holds for the catalog entries and links of the other entities and sections and for lookups of other facts. Only the sequence of entries for which the filing states no order may differ.",
  ["inputs"], "all filings and all such parts of them, where an added section states no dimension defaults and is not the target of another section's relationships",
  "Sample filings are only rendered whole; no test renders a filing with and without a part of it.",
  [R+"presentationGrid.go", R+"calculationGrid.go", R+"definitionGrid.go", R+"contexts.go", R+"catalog.go", H+"query.go"],
  [("relationships selected by role", R+"*Grid.go"), ("contexts selected by entity", R+"contexts.go"), ("lookups by reference", H+"query.go")],
  [CAT, PAGE, "fact lookup answers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
