#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than raw JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "PO lookup fidelity",
  "After any well-formed PO file is loaded, looking up an entry by message, context and plural form returns exactly the decoded text the file gives for that entry. This holds for every legal layout: strings continued over several lines, escape sequences, any mix of comments, blank lines, indentation, CRLF line ends, empty contexts or forms, entries in any order, no final newline. Loading a further file into the same object adds its entries, replaces those it redefines and leaves the others alone.",
  ["inputs"], "every well-formed PO catalogue (entries x contexts x plural forms x text) and every legal textual layout of it",
  "the repository's tests parse about a dozen fixed PO snippets; the combinations of layout, escapes and entry shapes are unbounded",
  ["po.go", "domain.go", "translation.go"],
  [("line-oriented state machine", "po.go Parse/parse*/saveBuffer"), ("lookup", "domain.go Get/GetN/GetC/GetNC")],
  ["Po.Get/GetN/GetC/GetNC after Po.Parse"])
p("C02", "MO lookup fidelity",
  "After any well-formed compiled MO file is loaded, looking up an entry by message, context and plural form returns exactly the text the file stores for that entry. This holds for both byte orders, format revisions 0 and 1, and every legal placement of the tables, hash table and strings, whether shared, reordered or separated by padding.",
  ["inputs"], "every well-formed MO file: every catalogue, byte order, table position and string position",
  "the tests read two MO files produced by one msgfmt on one machine",
  ["mo.go", "domain.go"], [("binary decoder", "mo.go Parse"), ("key splitting on EOT/NUL", "mo.go addTranslation")],
  ["Mo.Get/GetN/GetC/GetNC after Mo.Parse"])
p("C03", "PO and MO forms of one catalogue are interchangeable",
  "The same catalogue loaded from its PO text and from its compiled MO file, also on top of another catalogue loaded before in the same two forms, answers every lookup, plural lookup, context lookup, 'is translated' query and header query identically, and lists the same entries with the same forms. This includes messages that are absent, untranslated or only partly translated.",
  ["inputs"], "every catalogue, every query (present and absent ids, contexts, counts)",
  "the tests compare neither format against the other beyond one fixture",
  ["po.go", "mo.go", "domain.go"], [("shared storage for both formats", "domain.go Domain")],
  ["every query method of Po and of Mo on the same catalogue"])
p("C04", "A missing translation falls back to the caller's own text",
  "When a message has no usable translation (unknown message, context or domain, file or language missing, empty translation, missing plural form, nothing configured yet), a lookup returns the caller's own singular or plural text, formatted with the caller's arguments. It never returns an empty string for a non-empty message, another message's text, or a crash. This holds for every lookup method of catalogues, locales and the package-level functions.",
  ["inputs", "configurations"], "every catalogue with untranslated/partly translated entries, every absent key, every count, every configuration of locales and domains including none",
  "tests try a handful of absent strings in fixed configurations",
  ["domain.go", "translation.go", "locale.go", "gotext.go"],
  [("default returns", "domain.go Get*/Append*; locale.go Get*; gotext.go GetD/GetND/GetDC/GetNDC"), ("empty-form fallback", "translation.go Get/GetN")],
  ["return values of all Get*/Append* methods"])
p("C05", "Contexts and domains are separate namespaces",
  "The translation returned for a message in a context (or with no context) depends only on the entry stored under exactly that context and message in the queried domain. Entries with the same message under other contexts, with contexts that are prefixes or concatenations of others, or in other domains of the locale are never returned and are never disturbed by edits to each other.",
  ["inputs", "histories"], "every set of colliding-looking (domain, context, message) keys, every order of loading and editing them",
  "tests use one or two contexts with unrelated names",
  ["domain.go", "locale.go", "po.go", "mo.go"],
  [("two-level context maps", "domain.go contextTranslations"), ("per-domain translators", "locale.go Domains")],
  ["GetC/GetNC/GetD/GetDC/GetNDC after loads and Set*"])
p("C06", "Plural rules mean what they mean in C, or are refused",
  "Every plural rule (of up to 1000 characters) built from comparisons of n or n modulo a constant with integer constants, && and ||, ?: chains, and parentheses around conditions and branches is accepted and selects, for every count from 0 to 2^32-1, the form the same expression has in C. Any rule that is not a valid expression (missing operand or branch, unbalanced parentheses, foreign characters, zero modulus) is refused with an error. Compiling or evaluating never crashes or hangs, and an accepted rule always evaluates to a non-negative form.",
  ["inputs"], "every rule of the grammar, every malformed rule, every count 0 <= n < 2^32",
  "tests compare about 25 fixed rules on small n and 4 malformed strings",
  ["plurals/compiler.go", "plurals/expression.go", "plurals/tests.go", "plurals/math.go"],
  [("recursive descent by token splitting", "plurals/compiler.go Compile"), ("expression tree evaluation", "plurals/expression.go Eval")],
  ["plurals.Compile error/value and Expression.Eval"])
p("C07", "Plural lookups use the form the catalogue's rule selects",
  "For every count from 0 to 2^32-1, a plural lookup (plain or in a context) returns the stored form whose index the catalogue's Plural-Forms rule gives for that count. Without a usable rule the custom resolver installed by the user decides, and without one the Germanic rule (1 is singular, all else plural); setting a plural translation for a count stores the form which a lookup with that count then returns.",
  ["inputs", "configurations"], "every rule x count x resolver configuration x plain/context entry, in PO, MO and restored catalogues",
  "tests cover English, Czech and Arabic samples with a few counts",
  ["domain.go", "translation.go"],
  [("form selection", "domain.go pluralForm"), ("indexed forms", "translation.go GetN/SetN")],
  ["GetN/GetNC/AppendN/AppendNC/SetN/SetNC"])
p("C08", "Catalogue headers are preserved exactly",
  "Every 'Key: value' line of a loaded catalogue's header is available under its key as spelled, repeated keys keep all their values in file order, and values are trimmed but otherwise unchanged, colons included. The language and plural-rule headers are recognised whatever the case of their key. Header text is never returned as the translation of any non-empty message. A later load that has a header replaces the headers as a whole; one without leaves them.",
  ["inputs"], "every header block: keys of any case, repeated keys, values with colons and spaces, unknown keys, header split over lines, PO and MO",
  "tests check three headers in two files",
  ["domain.go", "po.go", "mo.go"], [("header parser", "domain.go parseHeaders, HeaderMap")],
  ["Headers.Get/Values, Language, PluralForms fields of Po, Mo and Domain"])
p("C09", "Text export loses nothing",
  "Exporting any catalogue as PO text and loading that text again yields the same messages, contexts, plural ids, translations of every form, source references (without spaces in them), headers and leading file comments, whatever valid UTF-8 text they contain (quotes, backslashes, newlines, tabs, carriage returns). This holds for catalogues loaded from PO or MO files and for those built or changed with the editing calls.",
  ["inputs", "histories"], "every catalogue of valid UTF-8 text and every edit history before the export",
  "tests round-trip one benign fixture",
  ["domain.go", "po.go"], [("writer", "domain.go MarshalText"), ("escaping", "domain.go EscapeSpecialCharacters"), ("reader", "po.go Parse")],
  ["MarshalText output and the catalogue parsed back from it"])
p("C10", "Text export is deterministic, ordered and stable",
  "Exporting equal catalogues gives byte-identical text every time and whatever the order in which the entries were added, and export, load, export reproduces the first export byte for byte. Entries appear ordered by first source reference (file, then line number), then context, then message, headers in their conventional order, and plural forms in index order.",
  ["inputs", "histories"], "every catalogue, every insertion order, every hash-map iteration order",
  "map iteration order is random per run; tests compare one small export",
  ["domain.go"], [("sorting of headers and entries", "domain.go MarshalText")],
  ["MarshalText bytes"])
p("C11", "Binary serialisation restores an equivalent object",
  "Serialising a PO, MO or domain catalogue or a whole locale to binary and restoring it gives an object that answers every lookup, plural lookup (including the plural rule), context lookup, header, reference and 'is translated' query like the original and exports the same entries. The restored object is fully usable: it can be edited and loaded into without failing. Damaged binary input yields an error, and then the object is as it was before, or a usable object, never a crash.",
  ["inputs", "histories"], "every catalogue/locale, including empty ones and ones without contexts or plurals; arbitrary corrupted byte strings",
  "tests restore one fixture and query two strings",
  ["domain.go", "translator.go", "locale.go"],
  [("gob encoding", "domain.go MarshalBinary/UnmarshalBinary"), ("locale encoding", "locale.go MarshalBinary/UnmarshalBinary, translator.go GetTranslator")],
  ["all queries before and after MarshalBinary/UnmarshalBinary"])
p("C12", "Loading arbitrary bytes as PO is safe and contained",
  "Loading any byte string whatsoever as a PO file terminates without a crash, in time and memory in proportion to its length, and leaves the object fully usable: what it then holds is a catalogue, with non-negative form numbers, whose text export loads back to the same messages. Lines that are not PO syntax (neither comment, keyword nor quoted string) are ignored: entries elsewhere in the file keep exactly their own translations, as do the entries before the point where a file is cut off.",
  ["inputs"], "every byte string; every placement of garbage lines or truncation in an otherwise valid file",
  "tests feed a few malformed snippets",
  ["po.go", "domain.go", "plurals/compiler.go"], [("tolerant line parser", "po.go Parse/isValidLine/parseMessage")],
  ["return/panic of Po.Parse, allocation counters, lookups after it"])
p("C13", "Loading arbitrary bytes as MO is safe and contained",
  "Loading any byte string whatsoever as an MO file terminates without a crash, allocating memory in proportion to the bytes given and the strings lying in them rather than to counts and lengths they claim, and leaves the object fully usable. No text is ever returned that is not in the file: an entry whose id or translation lies outside the file is never served padded or shortened. A file that does not begin with the magic number of an MO file, or whose major revision is unknown, loads nothing.",
  ["inputs"], "every byte string; every corruption of counts, offsets and lengths and every truncation of a valid file",
  "tests feed two malformed buffers",
  ["mo.go"], [("header and table validation", "mo.go Parse")],
  ["return/panic of Mo.Parse, bytes allocated, lookups after it"])
p("C14", "Catalogue objects are free of data races",
  "Any number of goroutines may call any methods of one PO, MO or domain object at the same time (loading, lookups, appends, edits, references, stale dropping, snapshots, exports, serialisation, plural resolver installation) without a data race, a crash or a corrupted result.",
  ["schedules"], "every interleaving of every pair of public operations on a shared catalogue",
  "the tests run one or two operation pairs concurrently for one schedule",
  ["domain.go", "po.go", "mo.go"], [("read-write locks", "domain.go trMutex/pluralMutex")],
  ["race detector reports, runtime fatal errors, returned values"],
  [("translations/contextTranslations/pluralforms", "shared catalogue state", "domain.go Domain")])
p("C15", "Locales and package functions are free of data races",
  "Any number of goroutines may use one locale (loading domains, adding translators, switching domain, lookups, snapshots, serialisation, queries) or the package-level functions (lookups in any domain, 'is translated' queries, changing language, library, domain or locales, reading the configuration) at the same time without a data race, a crash or a corrupted result.",
  ["schedules"], "every interleaving of every pair of public operations on a shared locale and on the package configuration",
  "tests run a few goroutines over one pair of operations",
  ["locale.go", "gotext.go"], [("locale lock", "locale.go RWMutex"), ("package lock", "gotext.go config.RWMutex")],
  ["race detector reports, runtime fatal errors, returned values"])
p("C16", "Concurrent edits and lookups are linearizable",
  "For every message, the concurrent edits and lookups on one catalogue object behave as if each took effect at one instant between its call and its return: a lookup that starts after an edit returned sees that edit or a later one, and no lookup sees a value nobody wrote. The same holds for plural forms (under a plural rule that stays the same), context entries and references.",
  ["schedules", "histories"], "every concurrent history of Set/SetN/SetC/SetNC/SetRefs and Get*/Append*/GetRefs on shared keys",
  "no test checks histories; it needs an order-aware oracle",
  ["domain.go"], [("exclusive lock around each edit", "domain.go Set*/Get*")],
  ["invocation/response events at the API boundary"])
p("C17", "Loading is atomic: readers never see half a file",
  "While one goroutine loads files into a PO or MO object, every lookup, snapshot and export made by other goroutines is consistent with the catalogue either before or after each load, never a mixture or a part of one. The number of entries, the header values and the plural rule in one snapshot or export belong to the same version.",
  ["schedules", "histories"], "every interleaving of loads with snapshots, exports, serialisations and ordered lookups",
  "tests only read after loading has returned",
  ["po.go", "mo.go", "domain.go"], [("lock held for the whole parse", "po.go/mo.go Parse")],
  ["GetTranslations/GetCtxTranslations/MarshalText/MarshalBinary during Parse"])
p("C18", "Reloading never exposes an untranslated moment",
  "While a locale reloads a domain, is restored from binary or is given a translator, or the package reloads because the domain, library, language or locales are set again, a concurrent lookup (package-level, on the reloading locale, or on the locales the package uses) of a message that both the old and the new catalogue translate returns one of these two translations, never the untranslated text. Once the reload has returned, every later lookup uses the new one.",
  ["schedules", "fault_sequences"], "every interleaving of AddDomain/SetDomain/SetLibrary/SetLanguage with lookups, at any file-system latency",
  "the window is a few microseconds on a real disk and tests never look into it",
  ["locale.go", "gotext.go"], [("parse first, publish after", "locale.go AddDomain"), ("locale list built under lock", "gotext.go loadLocales")],
  ["Locale.Get*/package Get* during reloads"])
p("C19", "Lookups never deadlock, even when formatting calls back",
  "No combination of concurrent calls deadlocks, nor do nested ones: a lookup's format argument, or a translator supplied by the user, may itself perform lookups, edits, queries or configuration changes on the same catalogue, locale or the package while it is being formatted, also while other goroutines load, edit or reconfigure, and every call returns.",
  ["schedules", "inputs"], "every nesting of public calls inside formatting callbacks and custom translators, against every concurrent writer",
  "no test formats an argument that calls back, nor does so with a writer waiting",
  ["domain.go", "locale.go", "gotext.go"], [("locks not held while formatting", "domain.go Get*/Append*, locale.go Get*, gotext.go Get*")],
  ["completion of every call; goroutine states"])
p("C20", "'Is translated' tells the truth",
  "A catalogue, locale or the package reports a message (in a domain, in a context, for a count) as translated exactly when the corresponding lookup would take its text from a non-empty translation in the catalogue rather than fall back. The package-level query restricted to given languages is true exactly when some loaded locale for one of these languages has the translation.",
  ["inputs", "configurations"], "every catalogue, plural rule, key, count, domain and list of languages",
  "tests ask about a few fixed strings with English rules",
  ["domain.go", "locale.go", "gotext.go", "translation.go"],
  [("IsTranslated*", "domain.go, locale.go, gotext.go IsTranslated*")],
  ["IsTranslated* against Get* and the known catalogue"])
p("C21", "Locale files are found in the documented order",
  "For every directory layout, loading a domain uses the first file that exists in this order: PO before MO, and for each the full language with its LC_MESSAGES folder, the bare language with LC_MESSAGES, the full language without, the bare language without. A real directory, a virtual file system and a virtual file system with a base path behave the same, and the reported actual language is the one whose folder was used, or empty if there is none.",
  ["configurations", "inputs"], "every subset of the eight candidate files, every form of language tag (with country, encoding, modifier, three-letter codes), each kind of storage",
  "tests use one layout per storage kind; there are 256 subsets per language shape",
  ["locale.go"], [("search order", "locale.go findExt/GetActualLanguage/AddDomain")],
  ["Locale.Get after AddDomain, GetActualLanguage"])
p("C22", "Languages are tried in order of preference",
  "With several languages configured, a package-level lookup (plain, plural, context, any domain) returns the translation of the first language in the list that has one, and the caller's text if none has. The outcome depends only on the configured list and the catalogues, not on which lookups were made before.",
  ["configurations", "inputs", "histories"], "every list of languages, every distribution of translations over them, every order of lookups and domain loads",
  "tests use one pair of languages and one domain",
  ["gotext.go", "locale.go"], [("fallback loop", "gotext.go GetD/GetND/GetDC/GetNDC"), ("lazy domain loading", "gotext.go loadLocales")],
  ["package Get* return values"])
p("C23", "Formatting applies to the translation exactly as fmt would",
  "With arguments, a lookup returns the translation formatted with those arguments exactly as the standard formatter formats it; without arguments it returns the translation verbatim, percent signs included. Every append variant leaves the existing bytes of the buffer untouched and adds exactly the text the matching lookup returns; when that fits into the buffer's capacity, the bytes behind it are left alone.",
  ["inputs"], "every translation text with verbs or stray percent signs, every argument list, every buffer length and capacity, all lookup and append methods at all levels",
  "tests format a few strings with one or two arguments",
  ["helper.go", "domain.go"], [("conditional Sprintf", "helper.go FormatString/Appendf")],
  ["Get*/Append* results compared with fmt"])
p("C24", "Named formatting substitutes every named argument",
  "In a format whose verbs are all named, named formatting replaces each %(name)verb by the named value formatted with that verb, in order, repeated names included, and treats all other text and an absent name as the standard formatter treats the corresponding positional verb. The values given are never modified.",
  ["inputs"], "every format string with named verbs, text between them in any script, precision and width digits, every value map",
  "tests try five fixed formats",
  ["helper.go"], [("regex rewriting to positional verbs", "helper.go reformatSprintf/parseSprintf")],
  ["Sprintf result; NPrintf output"])
p("C25", "Snapshots are independent and reads change nothing",
  "The maps and entries a catalogue or locale hands out as snapshots contain exactly its current entries, and changing them in any way never changes the catalogue, another snapshot or another entry, nor do later edits change the snapshot. The input bytes of a load may be reused afterwards. No lookup, query, snapshot, export or serialisation ever changes what any later call returns.",
  ["inputs", "histories"], "every catalogue, every mutation of a snapshot or buffer, every sequence of read operations",
  "tests mutate one field of one snapshot",
  ["domain.go", "locale.go"], [("deep copies", "domain.go GetTranslations/GetCtxTranslations")],
  ["GetTranslations/GetCtxTranslations, exports before and after"])
p("C26", "Edits behave like a simple keyed store",
  "After any sequence of loads, edits, reference changes and stale drops, every lookup, reference query and snapshot returns what a plain keyed store that applied the same steps would hold. Editing one form or entry changes nothing else, and dropping stale entries removes exactly those entries, in and out of contexts, that no edit or reference change has touched since they were loaded.",
  ["histories"], "every sequence of Parse/Set/SetN/SetC/SetNC/SetRefs/DropStaleTranslations over overlapping keys",
  "tests run three short scripted sequences",
  ["domain.go", "translation.go"], [("upserts", "domain.go Set*"), ("dirty marks", "translation.go; domain.go DropStaleTranslations")],
  ["Get*, GetRefs, GetTranslations, GetCtxTranslations"])
p("C27", "Source references stay with their own entry",
  "Each entry read from a PO file carries exactly the source references given in its own reference comments (all lines, in order), and entries without reference comments carry none. References survive text and binary round trips and are never shared with or leaked to neighbouring entries, whether those have contexts or plurals or not.",
  ["inputs"], "every arrangement of reference comments over entries with and without contexts and plurals",
  "tests check entries that all carry one reference line",
  ["po.go", "domain.go", "translation.go"], [("reference buffer", "po.go parseComment/saveBuffer")],
  ["Refs in GetTranslations/GetCtxTranslations, GetRefs"])
p("C28", "Language tags are simplified and settings are reported back",
  "Simplifying a language tag removes everything from the first colon, at-sign or dot, and surrounding blanks, is idempotent, and leaves other tags unchanged. The package reports back the library, domain and (simplified, order-preserving, colon-separated) language list last configured, by whichever setters and in whatever order, before and after lookups; a locale likewise reports its simplified language and its domain, the first domain added unless set explicitly.",
  ["inputs", "histories"], "every tag string, every sequence of Configure/SetLanguage/SetLibrary/SetDomain/SetLocales and getters, including before any configuration",
  "tests check three tags and one configuration order",
  ["helper.go", "gotext.go", "locale.go"], [("SimplifiedLocale", "helper.go"), ("config getters and setters", "gotext.go, locale.go")],
  ["getter results after each step"])
p("C29", "I/O faults are contained",
  "Whatever the storage does while locale files are looked for and read (missing files, directories in place of files, permission or read errors, short files, errors at any point of any call sequence), loading never crashes, hangs or blocks later calls. Loading an unreadable file into a catalogue object leaves its contents unchanged, every file opened is closed, other domains and languages are unaffected, lookups fall back to another candidate file's text, the text loaded before or the caller's text, and a later load after the fault has gone succeeds fully.",
  ["fault_sequences", "configurations"], "every fault kind injected at every individual storage operation of a load, for PO and MO, direct, locale and package loads",
  "tests try one missing file and one directory",
  ["translator.go", "locale.go", "po.go", "mo.go", "gotext.go"],
  [("error returns ignored safely", "translator.go getFileData; po.go/mo.go ParseFile; locale.go AddDomain")],
  ["lookups after a load through a faulty fs.FS or directory"])
p("C30", "No goroutine or unbounded work outlives a call",
  "When a call into the library returns, no goroutine started on its behalf remains, whether the input was accepted or refused; repeating any lookup, load or plural-rule compilation any number of times does not accumulate goroutines. Locks are released on every path: after any call, whether it returned, was refused or ended in a panic (of the caller's arguments, resolver, translator or storage), every other operation still completes.",
  ["inputs", "histories"], "every accepted or refused plural rule and catalogue, every sequence of calls",
  "no test counts goroutines, and the leak appears only on early error returns",
  ["plurals/compiler.go", "po.go", "mo.go", "gotext.go"], [("tokenizer goroutines", "plurals/compiler.go scan/split/tokenize")],
  ["goroutine profile filtered to library frames after each call"])
p("C31", "Extraction finds every translatable call and nothing else",
  "For any Go program's non-test sources (of the build for the current system), the extractor emits one entry per distinct (domain, context, message) for every call of a library lookup function or method (Get, GetN, GetD, GetND, GetC, GetNC, GetDC, GetNDC) made with non-empty literal strings, in any position of the code, for any import alias (other than a dot import), at package level or on values whose static type is one of the library's, with its plural, context and domain. Calls of same-named functions of other packages or types, comments and non-literal messages yield no entry, and each call site is listed as a reference.",
  ["programs"], "every Go package tree calling the library in any syntactic position, alias or method form",
  "tests extract from one small fixture program",
  ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/domain.go", "cli/xgotext/parser/dir/golang.go", "cli/xgotext/parser/pkg-tree/golang.go"],
  [("AST walk", "gofile.go InspectCallExpr/ParseGetter"), ("merge of occurrences", "parser/domain.go")],
  ["the template files written by the xgotext binary"])
p("C32", "Extracted templates load back with the same messages",
  "Every template file the extractor writes is valid PO that this library and other readers load back to exactly the extracted messages, contexts and plurals, whatever Unicode characters the source literals contain (escapes, quotes, newlines, raw strings, non-ASCII text). Running the extractor again on the same sources writes the same files, apart from timestamps. A template that can not be written in full makes the extractor end with an error, not with success.",
  ["programs", "inputs"], "every set of string literals and call shapes in the sources",
  "tests compare one fixed dump and never fill a disk",
  ["cli/xgotext/parser/domain.go", "cli/xgotext/parser/gofile.go"],
  [("literal re-quoting", "parser/domain.go Dump, toMsgIDString; gofile.go"), ("sorted output", "parser/domain.go Dump")],
  ["template files parsed back with gotext.Po"])
p("C33", "The extractor survives every valid program and honours exclusions",
  "On any directory of Go sources that compile, and also when some files do not, the extractor terminates without crashing; neither a file that does not compile nor a call whose message, plural, context or domain is not a literal prevents the calls in the other files, or the other calls, from being extracted. Exactly the directories named in the exclusion list (and what lies below them) are skipped, no others. It writes nothing but the templates in its output directory, and a command line without input or output, with both kinds of input, or with an input directory that does not exist ends with an error and writes nothing. Output that cannot be written in full is reported by an error, too.",
  ["programs", "configurations"], "every Go program, including non-literal arguments, unusual declarations and broken files; every exclusion list and directory naming",
  "tests run one well-behaved tree",
  ["cli/xgotext/parser/gofile.go", "cli/xgotext/parser/dir/parser.go", "cli/xgotext/parser/dir/golang.go", "cli/xgotext/main.go"],
  [("directory walk and exclusion", "parser/dir/parser.go"), ("call inspection", "gofile.go")],
  ["exit status and output of the xgotext binary"])
p("C34", "Locale and package calls answer as the catalogue they select",
  "A lookup, plural lookup, context lookup or query on a locale, in its default domain or a named one, returns exactly what the translator loaded for that domain returns for the same arguments, including translators supplied by the user. A package-level call returns exactly what the selected locale returns, for every argument list, and a domain switch or an added translator takes effect for the next call.",
  ["configurations", "inputs", "histories"], "every set of domains and translators (PO, MO, custom), every method, every sequence of AddDomain/AddTranslator/SetDomain",
  "tests exercise few of the 16 forwarding methods and with fixed arguments",
  ["locale.go", "gotext.go", "translator.go"], [("forwarding", "locale.go Get*/GetD*/IsTranslated*; gotext.go Get*")],
  ["return values of forwarding methods and recorded calls of a custom translator"])
p("C35", "Loaded domains are answered from memory until loaded again",
  "Once a domain is loaded, by a locale or by the package, lookups in it are answered from memory: they do not use the storage, and rewriting (even with the same size and time), replacing, adding or removing its files, switching a link above them, or a storage that has begun to fail changes no answer. Adding the domain again, setting language, library, domain or configuration, or parsing a file again on an object takes the contents there are then, and exactly those. (Queries restricted to explicitly listed languages may look for files.)",
  ["histories", "faults"], "every history of changes to files, lookups and reloads",
  "no test changes a file after loading it",
  ["locale.go", "gotext.go", "translator.go", "po.go", "mo.go", "domain.go"],
  [("loading once", "gotext.go loadLocales/GetD; locale.go AddDomain"), ("reading a file again", "translator.go getFileData; po.go/mo.go ParseFile")],
  ["lookups between changes of the files and reloads", "operations of the storage"])
p("C36", "Entries answer by their own fields",
  "An entry (Translation), handed out by a catalogue or made by the program, answers by its own fields: Get and GetN give the stored form, or the id (form 0) or plural id (other forms) when the form is missing or empty, for every form number; IsTranslated and IsTranslatedN tell whether that form is stored and not empty. Set, SetN and SetRefs change exactly that form or the references, of that entry and no other, and mark the entry as touched, which IsStale reports.",
  ["inputs", "histories"], "every set of forms, every form number, every sequence of setters",
  "tests set form 0 and 1 of one entry",
  ["translation.go"], [("form fallback", "translation.go Get/GetN"), ("touched mark", "translation.go Set/SetN/SetRefs/IsStale")],
  ["return values of the entry's methods after every step"])
p("C37", "Headers set by the program are kept and exported",
  "HeaderMap is a map from exact (case-sensitive) keys to lists of values: Add appends, Set replaces all, Del removes, Get gives the first value or the empty string, Values all in order; other keys, and lists handed out before, are untouched and a nil map reads as empty. Headers so changed on a catalogue appear, exactly those, in its text export and are there after the text or the binary export is loaded again; the entries stay as they were.",
  ["inputs", "histories"], "every sequence of operations on headers with every key and value",
  "tests add and delete one key",
  ["domain.go", "po.go"], [("header multimap", "domain.go HeaderMap"), ("header export", "domain.go MarshalText")],
  ["HeaderMap methods, exports and reloaded catalogues"])
p("C38", "Objects are isolated from each other",
  "Catalogue objects, domains, locales and the package do not influence each other: loading, editing, exporting, clearing or switching one changes no answer, header, rule or export of another, even if they have the same keys, headers, rules, files or names, were restored from snapshots of one another, or are used at the same time from different goroutines. Only a translator the program itself puts in several places is shared.",
  ["histories", "schedules"], "every set of objects, every interleaving of operations on different objects",
  "tests use one object at a time",
  ["domain.go", "po.go", "mo.go", "locale.go", "gotext.go", "translator.go", "plurals/compiler.go"],
  [("state owned by each object", "domain.go NewDomain; po.go; mo.go; locale.go"), ("restored copies", "translator.go GobDecode; domain.go UnmarshalBinary")],
  ["state of every object after each step on any of them", "race detector"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
