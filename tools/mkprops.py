#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

p("P01", "Translation lookup follows selected -> fallback -> source text",
  "For every bundle, localizer and message, a lookup returns the non-empty translation stored for exactly the requested domain, context, message and plural form in the selected language; if there is none, that of the fallback language; if there is none there either, the source text itself, where singular or plural source text is chosen by the source language's plural rule (English-like when no source language is set, singular whenever no plural text is given). The error reported along with the text is nil exactly when the requested language was matched and it (or, for the source language, the source text) delivered the result; otherwise the first failure of the selected language, or a 'no locale' error, is reported.",
  ["configurations", "inputs"],
  "all combinations of loaded languages, source/fallback languages, catalogs with missing domains, contexts, messages, empty translations and partial plural forms, requested languages, and messages",
  "Tests sample a handful of fixed catalogs; the fallback chain has to be right for every combination of present/missing at each of four levels (domain, context, message, form) in each of three languages.",
  ["localizer.go", "locale.go", "catalog/po.go", "catalog/json.go"],
  [("two-step fallback", "localizer.go: lookupSingularTranslation / lookupPluralTranslation"), ("catalog miss detection", "catalog/po.go getMessage, catalog/json.go getTranslation"), ("source text plural choice", "locale.go printSourceMessage")])

p("P02", "All accessor variants agree; domains and contexts are isolated",
  "Every accessor variant (with or without domain, context, plural, formatting; on localizers and key localizers; and localization of message values) returns exactly what the fully qualified lookup returns with the default domain, the empty context, or the key as its own plural text filled in for whatever the variant omits. A translation stored under one domain or context is never returned for another, and the default domain is the one given to the localizer, otherwise the one given to the bundle.",
  ["configurations", "inputs"],
  "all accessor variants x default domains x catalogs whose domains/contexts/ids collide in every way",
  "36 near-identical accessors are each tested with one or two catalogs in which a wrong domain or context often yields the same text.",
  ["localizer.go", "localize/types.go", "bundle.go"],
  [("accessor family", "localizer.go Get .. DNPGetf for Localizer and KeyLocalizer"), ("message values", "localizer.go LocalizeWithError")])

p("P03", "Bundle creation: exact outcome for every option and catalog availability",
  "Creating a bundle either fails or yields a bundle whose languages and domains are exactly those for which a catalog was obtained plus the source language: an optional language skips domains that have no catalog and is skipped itself when it has none, a required or fallback language fails if any domain has none, and a catalog that exists but cannot be loaded fails the creation in every case. Nil options, nil or duplicate loaders and languages of a wrong type are rejected with an error, a creation without options always succeeds, and the outcome does not depend on the position of an option except for the priority order of languages.",
  ["configurations", "histories"],
  "all sequences of options (languages optional/required, source, fallback, loaders, printers, ...) over all availability tables (present / missing / broken) of language x domain",
  "The outcome is a function of an option sequence and an availability table; tests cover a few dozen fixed pairs out of an exponential space, mostly with one domain.",
  ["bundle.go", "utils.go"],
  [("deferred setup actions", "bundle.go NewBundle / preloadLanguages"), ("per-language catalog loading", "bundle.go createLocale")])

p("P04", "Language negotiation picks the matcher's best language or the fallback",
  "A localizer works in the loaded language that the configured matcher picks for the requested preference list with better than no confidence, and then reports that a locale was found; otherwise it works in the fallback language, or in the source language when no fallback is configured, and reports that none was found. Requested strings are read as Accept-Language lists, tags are used as they are, and any malformed string or value of another type is dropped without influencing the others; support queries agree with this choice.",
  ["configurations", "inputs"],
  "all lists of loaded languages and all lists of requested languages (tags, Accept-Language strings with weights, malformed strings, other types), standard and custom matchers",
  "Depends on the interplay of option order, source/fallback languages and arbitrary request lists; tests check a few fixed requests.",
  ["localizer.go", "bundle.go"],
  [("request parsing and matching", "localizer.go NewLocalizerForDomain"), ("fallback locale selection", "bundle.go NewBundle, localizer.go newLocalizerFromTag"), ("support query", "bundle.go IsLanguageSupported")])

p("P05", "A bundle is immutable and safe for concurrent use",
  "After creation, any number of goroutines may create localizers and look up messages, numbers and errors concurrently without data races, each call returning what the same call would return alone. No sequence of calls, nor modifying any slice, map or message returned by an accessor (domains, languages, catalog messages, translations), changes the result of a later call.",
  ["schedules", "histories"],
  "all interleavings of calls from several goroutines on shared bundles, localizers and catalogs, and all histories that also mutate returned values",
  "A test run observes one schedule, and the tests do not run with concurrent users or mutate returned values.",
  ["bundle.go", "localizer.go", "locale.go", "catalog/po.go", "catalog/json.go", "catalog/poplural/builtin.go", "catalog/cldrplural/builtin.go"],
  [("copies handed out by accessors", "bundle.go Domains/SupportedLanguages, localizer.go Domains, catalog/po.go Messages/Translations/Clone, catalog/json.go Messages/Clone"), ("read-only lookup path", "locale.go, catalog/*.go")])

p("P06", "Translation files are resolved in the documented order",
  "For a language and domain, the loader uses the first existing file in the documented search order: file extensions in decoder order first, for each extension the language names from longest to shortest (ties alphabetical), and for each name the path layouts in their documented order, including the configured category; with searching disabled only the first layout is considered. Without an existing candidate the catalog counts as missing, and no file that is not a candidate for that language, domain and extension is ever used.",
  ["configurations", "inputs"],
  "all subsets of candidate files, languages (with/without region and script), domains (also empty), categories, decoder orders, search on/off",
  "The order is a total order over ~100 candidate paths; tests check single files.",
  ["loader.go", "utils.go"],
  [("path search", "loader.go searchFileForLanguageName"), ("language expansion", "utils.go ExpandLanguage"), ("extension order", "loader.go Load")])

p("P07", "I/O faults while loading never yield a partial catalog",
  "If opening, reading or closing a catalog file fails at any point, or its content is rejected, loading fails with an error and no catalog is delivered; only a file that does not exist counts as missing, in which case the search continues. How the bytes are delivered (short reads, data together with end-of-file, empty reads) never changes the catalog obtained.",
  ["fault_sequences", "crash_points"],
  "every single fault (open, n-th read, close, not-exist in the middle) at every position, all chunkings of the content, for PO, MO and JSON files",
  "Tests read from well-behaved in-memory file systems only; no fault is ever injected.",
  ["loader.go", "catalog/po_decoder.go", "catalog/po/scanner.go", "internal/mo/parser.go"],
  [("open/read/close error handling", "loader.go loadFromFile"), ("line reader", "catalog/po/scanner.go read"), ("mo reads", "internal/mo/parser.go read")])

p("P08", "PO parsing attributes every entry and line correctly or fails",
  "Parsing a PO text either reports an error or yields exactly the entries it contains: every entry with its own context, id, plural id, translations per form index and the comments directly preceding it, whether or not entries are separated by blank lines, in any order of forms, with continuation lines belonging to the field and index they follow, and with header fields from the entry with empty id. No entry, comment, line or tail of the file is silently dropped or attached to another entry; duplicate entries, a second header, and lines that are not PO syntax are errors.",
  ["inputs"],
  "all sequences of PO lines: entries with/without blank lines, comments of all kinds, continuation lines, arbitrary form indexes, CRLF, long lines",
  "Parsing is a state machine over line kinds; tests hold a few typical files, with one blank line between entries.",
  ["catalog/po/parser.go", "catalog/po/scanner.go"],
  [("line classification", "catalog/po/scanner.go scan"), ("entry assembly", "catalog/po/parser.go parseMessage / parseComment"), ("header", "catalog/po/parser.go parseHeader")])

p("P09", "PO string quoting is lossless for every text and every wrap width",
  "Decoding the quoted form of any valid UTF-8 text returns the text unchanged, whatever the wrap width; the quoted form always consists of well-formed quoted lines. Decoding any sequence of quoted lines terminates, interprets the C escapes (\\a \\b \\f \\n \\r \\t \\v \\\\ \\\" \\' \\/ and \\xHH below 0x80) and leaves all others as they are.",
  ["inputs"],
  "all texts over printable, control, quote, backslash, newline, whitespace and multi-byte characters, and all wrap widths",
  "Escape sequences interact with each other and with wrapping positions; tests have a few dozen strings.",
  ["catalog/po/po_string.go", "internal/util/string_buffer.go"],
  [("quoting", "catalog/po/po_string.go escapePoString / EncodePoString"), ("unquoting", "catalog/po/po_string.go unescapePoBytes / DecodePoString"), ("wrapping", "catalog/po/po_string.go encodePoStringWithWrap")])

p("P10", "Writing a PO file and reading it back preserves it, deterministically",
  "For every catalog file content, encoding it and parsing the output yields the same header fields, messages, contexts, plural ids, translations, translator/extracted comments, references (path and line) and flags (comments up to the white space around their lines, and their line breaks when wrapping is on), for every wrap width and encoder option, except for parts an option omits. Encoding the same content always yields the same bytes, independent of the order in which messages or header fields were added.",
  ["inputs", "configurations", "histories"],
  "all files with arbitrary texts, sparse/unordered plural indexes, unknown header fields, comments, insertion orders, encoder options",
  "Tests compare a few encoded files; they cannot cover map iteration order, arbitrary texts or sort ties.",
  ["catalog/po/encoder.go", "catalog/po/wrap.go", "catalog/po/parser.go"],
  [("encoding", "catalog/po/encoder.go encodeMessage / encodeHeader / encodeComment"), ("ordering", "catalog/po/encoder.go DefaultSortFunction")])

p("P11", "Adding and merging PO messages keeps every first translation and all comments",
  "After any sequence of additions, a file contains exactly one message per context and id: the first one added, with its translations unchanged, its plural id taken from the first addition that has one, and its comments the union of all added comments without introducing duplicates, with flags and references sorted. Messages with an empty id are ignored, and the result for references and flags does not depend on the order of merging.",
  ["histories"],
  "all sequences of additions/merges over few contexts, ids and comment parts",
  "Merging is stateful; tests check single merges.",
  ["catalog/po/file.go", "catalog/po/message.go", "catalog/po/comment.go"],
  [("add or merge", "catalog/po/file.go Messages.Add / AddMessage"), ("comment merge", "catalog/po/comment.go Merge")])

p("P12", "MO files are decoded exactly, in both byte orders, or rejected",
  "Decoding a well-formed MO file of either byte order yields exactly its messages: context split at the first EOT, plural id and forms split at NUL, header fields from the empty id, independent of where string tables and strings are placed or whether strings share storage. A file with a wrong magic number or version, or in which a string table or string reaches beyond the end of the file, is rejected with an error instead of producing truncated or zero-filled texts.",
  ["inputs"],
  "all small MO images in both byte orders and layouts, all truncation points and single-field corruptions",
  "Tests decode two well-formed little-endian files.",
  ["internal/mo/parser.go", "catalog/po_decoder.go"],
  [("byte order and header", "internal/mo/parser.go parseByteOrder / parseHeader"), ("tables and strings", "internal/mo/parser.go parseMessageData / parseMessage / read"), ("splitting", "internal/mo/parser.go parseMessages")])

p("P13", "Unfinished catalog entries are never served as translations",
  "Fuzzy entries, obsolete entries, the header entry and empty translations are never returned as a translation by a catalog obtained from a PO, MO or JSON file; a lookup that hits one reports exactly which of context, message or plural form is missing, naming language, domain, context, message and form. Every other entry of the file is served unchanged.",
  ["inputs"],
  "all catalogs mixing fuzzy, obsolete, untranslated, partially translated and finished entries with other flags, in several contexts",
  "Tests contain single fuzzy entries; the property quantifies over all neighbours and flag combinations.",
  ["catalog/po_decoder.go", "catalog/po.go", "catalog/json.go", "catalog/po/comment.go"],
  [("fuzzy and header filter", "catalog/po_decoder.go buildGettextCatalog"), ("missing errors", "catalog/po.go getMessage, catalog/json.go getTranslation, catalog/catalog.go")])

p("P14", "Plural-Forms headers are evaluated with C semantics",
  "Every accepted Plural-Forms header evaluates, for every number, to what its expression means in C: precedence, associativity, nested conditionals and any non-zero value counting as true; negative numbers count by magnitude and fractions are rounded to even (magnitudes beyond 64 bits may be errors). Malformed headers are rejected, and recognizing a well-known header never changes its result.",
  ["inputs"],
  "all expression trees over n, constants, % comparison logic and ?: (all renderings with/without parentheses and spaces) x all n",
  "An expression language; tests evaluate a list of well-known formulas, whose results do not distinguish wrong truthiness, precedence or shortcut matching.",
  ["catalog/poplural/rule.go", "catalog/poplural/ast/parser.go", "catalog/poplural/ast/scanner.go", "catalog/poplural/ast/compile.go", "catalog/poplural/builtin_gen.go"],
  [("parser", "catalog/poplural/ast/parser.go"), ("interpreter", "catalog/poplural/rule.go evaluateNode"), ("shortcut to built-in functions", "catalog/poplural/rule.go Parse / getBuiltInForRawRule")])

p("P15", "Built-in gettext plural rules equal their formula for every number",
  "For every built-in language, the plural form of every number equals the language's published Plural-Forms formula and lies below its number of forms; a language without own rule uses the rule of its base language or closest parent and finally the English rule, and reports whether a rule was found. All numeric types, numeric strings and pointers to them give the same form for the same value; values that are not numbers are errors.",
  ["inputs"],
  "all built-in languages and regional/script variants x all numbers and representations",
  "Tests evaluate a few numbers for a few languages.",
  ["catalog/poplural/builtin.go", "catalog/poplural/builtin_gen.go", "catalog/poplural/rule.go", "internal/cast/number.go"],
  [("language resolution", "catalog/poplural/builtin.go pluralRuleForLanguage"), ("generated rules", "catalog/poplural/builtin_gen.go"), ("number conversion", "internal/cast/number.go ToNumber")])

p("P16", "CLDR operands depend only on the number's value and visible digits",
  "The plural operands n, i, v, w, f, t and c/e of a number are those of the CLDR definition for its decimal representation, including trailing zeros and compact exponents of strings. They are independent of the sign and of the Go type carrying the value (signed, unsigned, float, pointer, string without fraction), for every magnitude that 64-bit operands can represent; inputs that are not decimal numbers, and numbers beyond, are errors.",
  ["inputs"],
  "all decimal strings (fraction digits, trailing zeros, exponents, signs) and all numeric types and magnitudes",
  "Tests check small values in a few types; formatting switches at 10^6 or above and sign handling are never hit.",
  ["catalog/cldrplural/cldr.go", "internal/cast/number.go"],
  [("operand extraction", "catalog/cldrplural/cldr.go NewOperands / newOperandsString / shiftDecimalPoint")])

p("P17", "Runtime CLDR rules follow TR35 and are deterministic",
  "A rule set parsed at run time assigns each number (of up to 15 digits) a category whose condition it satisfies under the TR35 grammar and semantics (and over or, modulo, value lists, integer-only ranges, negation), and 'other' when none does. The result and the list of categories, which is in canonical order and ends with 'other', are the same on every evaluation; malformed rules are rejected.",
  ["inputs", "histories"],
  "all rule texts of the grammar x all numbers with fractions and exponents, parsed and evaluated repeatedly",
  "Tests use known rules once; map iteration order and rarely used syntax stay unobserved.",
  ["catalog/cldrplural/evaluation.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/ast/scanner.go"],
  [("rule evaluation", "catalog/cldrplural/evaluation.go"), ("rule grammar", "catalog/cldrplural/ast/parser.go")])

p("P18", "Built-in CLDR rules assign every number the CLDR category",
  "For every built-in language, every number (of up to 15 digits, with any visible fraction and compact exponent) is assigned the category given by the CLDR rules of that language, and only categories the language lists, in canonical order with 'other' last, are ever assigned. A regional or script variant uses the rules of its base language or closest parent, an unknown language the English rules, and whether a rule was found is reported.",
  ["inputs"],
  "all built-in languages and variants x all numbers",
  "Tests compare generated samples of few values; conditions combine modulo, ranges and fraction operands over an infinite domain.",
  ["catalog/cldrplural/builtin.go", "catalog/cldrplural/builtin_gen.go", "catalog/cldrplural/evaluation.go"],
  [("generated rules", "catalog/cldrplural/builtin_gen.go"), ("language resolution", "catalog/cldrplural/builtin.go ForLanguage")])

p("P19", "PO and MO catalogs choose the documented plural rule",
  "A PO or MO catalog picks plural forms by the Plural-Forms header when there is one, by the CLDR rules of its language (form index = position of the category in canonical order) when the decoder or the X-spreak-use-CLDR header asks for CLDR and the CLDR knows the language, or when there is no Plural-Forms header (English rules for languages unknown to CLDR). A header that is needed but malformed makes decoding fail, and one that is not needed is ignored.",
  ["configurations", "inputs"],
  "decoder kind x header combinations (absent, valid, malformed; CLDR flag in any case) x languages x numbers, for PO and MO",
  "A decision table over five independent dimensions; tests cover some rows with numbers for which several rules coincide.",
  ["catalog/po_decoder.go", "catalog/po/file.go"],
  [("rule selection", "catalog/po_decoder.go buildGettextCatalog"), ("category to form", "catalog/po_decoder.go getCLDRPluralFunction")])

p("P20", "JSON catalogs are validated and looked up by key, context and category",
  "A JSON catalog is accepted exactly if it is a non-empty object whose messages are texts or objects of texts, each with an 'other' text and, when it has a context, a key ending in underscore and context; category names are case-insensitive and unknown fields are ignored. A lookup with a context uses the key with the context appended; plural lookups use the CLDR category of the number; messages with only 'other' stay as they are, and others get exactly the categories of the language, missing ones empty.",
  ["inputs"],
  "all small JSON documents (strings, objects, nested, null, wrong types, empty) x languages x lookups",
  "Tests hold a few documents; acceptance and normalisation are functions over all document shapes.",
  ["catalog/json.go", "catalog/json_decoder.go"],
  [("validation", "catalog/json.go setMessage / UnmarshalJSON"), ("category normalisation", "catalog/json.go applyCategoriesToJSONMessage"), ("key suffix", "catalog/json.go getTranslation")])

p("P21", "JSON catalogs survive encoding and never share state with the caller",
  "Encoding a JSON catalog and decoding the output for the same language yields the same messages with their comments, contexts and categories; the output is valid JSON with sorted keys, categories in canonical order, and is the same on every call. Catalogs built from message maps, and the messages they hand out, are deep copies: encoding or later changes to either side never affect the other.",
  ["inputs", "histories"],
  "all message maps, languages, and histories of encoding and mutating inputs or returned messages",
  "Tests compare one or two documents and no mutation afterwards.",
  ["catalog/json.go", "catalog/json_encoder.go"],
  [("encoding", "catalog/json.go MarshalJSON, catalog/json_encoder.go"), ("copies", "catalog/json.go Clone / Messages / setMessage")])

p("P22", "Localized errors always keep the original error reachable",
  "Localizing an error returns nil for nil, the very same error when the localizer's matched language has no translation for it, and otherwise an error whose text is that translation and which unwraps to the original. Plain errors are looked up by their text in the localizer's default domain and the bundle's error context ('errors' unless configured, also when configured empty), errors that are message values by their own domain, context, plural and variables; localizing message values directly reports the text together with the same success or failure.",
  ["inputs", "configurations"],
  "all errors (plain, wrapped, message values with/without domain, context, plural, vars) x catalogs x error contexts x matched/unmatched/source languages",
  "Tests check one translated error per kind.",
  ["localizer.go", "localize/error.go", "bundle.go"],
  [("error localisation", "localizer.go LocalizeError / LocalizeWithError"), ("wrapping", "localize/error.go")])

p("P23", "The missing-translation callback reports every miss and nothing else",
  "Whenever a loaded language is consulted and cannot deliver a translation (domain, context, message or form missing, or the number unusable), or a language or catalog is missing during creation, the configured callback receives an error of the matching kind naming what is missing, in the order of consultation. It is never called for translations that are found, for the source language's texts (unless their number is unusable), or with nil, and leaving the callback out changes no result.",
  ["configurations", "histories"],
  "all bundles/catalog availabilities x lookup sequences",
  "Tests count single callbacks; completeness and silence are over all lookups.",
  ["locale.go", "bundle.go", "localizer.go"],
  [("lookup misses", "locale.go lookupSingularTranslation / lookupPluralTranslation"), ("creation misses", "bundle.go preloadLanguages / createLocale")])

p("P24", "Texts are formatted by the right printer, verbatim without arguments",
  "A text looked up without arguments is returned verbatim, whatever it contains; with arguments it is formatted exactly once by the print function of the language that supplied the text (source texts by the source language's), with exactly the given arguments. A configured printer is initialized with all loaded languages before it is asked for any print function, a configured print function is used for all texts, and number formatting follows the language of the text by default.",
  ["inputs", "configurations"],
  "all texts (also with % and other directives) x argument lists x languages x printers, for every accessor",
  "Tests check some formats with one locale; which printer is used matters only in fallback cases.",
  ["utils.go", "locale.go", "bundle.go", "localizer.go"],
  [("default printer", "utils.go defaultPrintFunc"), ("printer selection", "locale.go buildLocale / buildSourceLocale"), ("initialisation order", "bundle.go NewBundle")])

p("P25", "Elapsed times are decomposed into the largest adjacent whole units",
  "The text for the time between two instants lists, from the largest non-zero unit down, whole years of 365 days, months of 30 days, weeks, days, hours and minutes after correcting for leap days; every count is rounded down, the counts never exceed the elapsed time (taken between the whole seconds of the two instants), at most the requested number of units appears and (unless disabled) they are adjacent. Instants in the wrong order, and less than a minute, give zero minutes, and the 'until' form equals the 'since' form with the instants swapped.",
  ["inputs"],
  "all pairs of instants (around every unit boundary and leap years), depths, adjacency settings, directions, input types",
  "Tests use a table of durations; rounding errors occur only close below a unit boundary.",
  ["humanize/date.go", "humanize/helper.go", "internal/calendar/calendar.go"],
  [("decomposition", "humanize/date.go TimeSince"), ("leap days", "internal/calendar/calendar.go")])

p("P26", "Relative days and times name the right day, direction and unit",
  "A day is called yesterday, today or tomorrow exactly if its calendar date differs from the current date, both in the value's own time zone, by -1, 0 or +1, also across clock changes; every other day is shown in the language's date format. Relative times say 'now' within the same rounded second, count whole seconds, minutes or hours below a day in the right direction, and otherwise give the elapsed-time text.",
  ["inputs"],
  "all instants relative to now, in all time zones including days of 23 and 25 hours",
  "Tests depend on the current time in one zone and never hit clock-change days.",
  ["humanize/date.go", "internal/cast/time.go"],
  [("day comparison", "humanize/date.go NaturalDay"), ("relative time", "humanize/date.go NaturalTime")])

p("P27", "Date formats follow the Django format letters for every instant",
  "Every letter of a date format is replaced by its documented value for the instant in its own time zone (names translated, numbers padded as documented, ISO week and year, fractional seconds exact), escaped letters and all other characters are copied, and predefined format names use the language's format. Formatting never fails and each letter's text is independent of its neighbours.",
  ["inputs"],
  "all format strings over all letters, escapes and other characters x all instants, zones and languages",
  "Tests check each letter at one or two instants.",
  ["humanize/dateformat.go", "humanize/date.go", "humanize/dates.go"],
  [("format scanner", "humanize/dateformat.go format"), ("letter values", "humanize/dateformat.go")])

p("P28", "Humanized numbers and sizes are exact for all magnitudes and types",
  "Ordinals take the suffix of the last two digits (11 to 13 being 'th'), single digits 1 to 9 are spelled out, other integers are printed with digit grouping, large numbers and file sizes use the largest unit not exceeding the magnitude with (at most) one decimal, and signs are preserved; numbers of more digits than a floating-point number holds may be given as the nearest such number, but keep sign, magnitude and unit. Equal values give equal texts whatever numeric type or numeric string carries them, and values that are not numbers yield a printf-style error text.",
  ["inputs"],
  "all integers/floats around every power and suffix boundary, all numeric types, strings, nil and other values",
  "Tests are tables of typical numbers.",
  ["humanize/numbers.go", "humanize/helper.go", "internal/cast/number.go"],
  [("numbers", "humanize/numbers.go Ordinal / Apnumber / Intcomma / Intword"), ("sizes", "humanize/helper.go FilesizeFormat")])

p("P29", "Humanizers use the matched language's texts and formats consistently",
  "A humanizer created from a collection uses the texts and the date formats of one and the same language: the collection's best match for the request, with English defaults for anything the language does not define and for requests that match nothing. The result does not depend on chance or on humanizers created before, and the language reported is the one used.",
  ["configurations", "histories"],
  "all sets and orders of locale data (with partial formats) x request lists, repeated",
  "Tests create single-language collections; selection among several loaded languages is not repeated.",
  ["humanize/humanizer.go", "humanize/locale.go"],
  [("collection", "humanize/humanizer.go New / CreateHumanizer"), ("format defaults", "humanize/humanizer.go setDefaults")])

p("P30", "All parsers terminate without panicking on every input",
  "For every input, the PO, MO, JSON, Plural-Forms and CLDR-rule parsers terminate in time and memory proportional to the input, never panic, and return either a usable value or an error, never both and never neither. A value returned can then be looked up or evaluated for every key and number without panicking.",
  ["inputs"],
  "all byte strings: truncations, single-byte mutations and token shuffles of valid inputs, and all short strings over the token alphabets",
  "Tests feed a list of hand-written invalid inputs.",
  ["catalog/po/parser.go", "catalog/po/po_string.go", "internal/mo/parser.go", "catalog/json.go", "catalog/poplural/ast/parser.go", "catalog/cldrplural/ast/parser.go", "catalog/cldrplural/evaluation.go"],
  [("parsers", "catalog/po/parser.go, internal/mo/parser.go, catalog/json_decoder.go, catalog/poplural/ast/parser.go, catalog/cldrplural/ast/parser.go")])

p("P31", "Every shipped language pack is complete, consistent and named correctly",
  "Every language pack that comes with the humanizers declares the language its package is named after, in the package as in its catalog, and a humanizer made for that language uses it. Its translations show the value that their text is about exactly once, except that a plural form that is used for a single number may spell that number out; its plural rule is valid, selects no form that the catalog has not declared, and its texts with plurals have every form that the rule selects or none at all. Its date and time formats are filled in such that different days, minutes and months read differently, and its full, alternative and abbreviated month names and its weekday names are distinct.",
  ["configurations", "inputs"],
  "all packages under humanize/locale, all their texts and plural forms, all formats, all days, times and months of two years",
  "The tests create a humanizer with each pack, and use one or two texts of a handful of them.",
  ["humanize/locale"],
  [("packs", "humanize/locale/*/locale.go New"), ("catalogs", "humanize/locale/*/django.po")])

p("P32", "Humanizers of every shipped language say what its catalog says",
  "For every shipped language, each text that a humanizer writes (times elapsed, relative times and days, dates in every format, numbers, sizes, ordinals, language names) is the one its language pack has for it in the right context and plural form, with numbers written as they are in that language and dates in the formats of the pack; what the pack has no text or format for is English. This holds for any collection of packs, and no text holds a formatting error. The name of a language by its code is the pack's translation of the English name of that language, and empty for unknown codes.",
  ["configurations", "inputs"],
  "all shipped languages x all humanizing functions and options x times, numbers of all magnitudes, formats, language codes",
  "The tests check some functions in a few languages; the texts needed depend on contexts, plural rules of up to six forms, number systems and formats of 97 languages.",
  ["humanize/humanizer.go", "humanize/date.go", "humanize/dates.go", "humanize/dateformat.go", "humanize/numbers.go", "humanize/helper.go", "humanize/helper_table.go", "humanize/locale", "localizer.go", "locale.go"],
  [("texts of the packs", "humanize/date.go, dates.go, dateformat.go, numbers.go, helper.go"), ("names of languages", "humanize/helper_table.go LocaleInfos")])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
