From 62b556940392c1ab1d3eb177c827d5e1b2f54e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 01/58] fix: report a missing plural translation once when the
 fallback language is the selected one

A plural lookup consulted the fallback locale a second time when it already
was the selected locale, so the missing translation callback was called twice
for one miss. Singular lookups already skip the second consultation.
---
 localizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/localizer.go b/localizer.go
index 319489e..42ab730 100644
--- a/localizer.go
+++ b/localizer.go
@@ -324,9 +324,11 @@ func (l *Localizer) lookupPluralTranslation(domain string, ctx localize.Context,
 	}
 
 	errA := err
-	t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-	if err == nil {
-		return t, errA
+	if l.locale.language != l.bundle.fallbackLocale.language {
+		t, err = l.bundle.fallbackLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
+		if err == nil {
+			return t, errA
+		}
 	}
 
 	t, _ = l.bundle.sourceLocale.lookupPluralTranslation(domain, ctx, singular, plural, n, vars...)
-- 
2.43.0


From 4f3c7a365813c13dcafa702f1d9552426ade29ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 02/58] fix: initialize the printer before asking it for print
 functions

The print functions of all loaded languages were requested while the locales
were created, before Printer.Init had announced the languages, so a printer
that prepares itself in Init handed out unprepared (or nil) functions.
---
 bundle.go | 6 ++++++
 locale.go | 2 --
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bundle.go b/bundle.go
index 8c31461..ad4359e 100644
--- a/bundle.go
+++ b/bundle.go
@@ -127,6 +127,12 @@ func NewBundle(opts ...BundleOption) (*Bundle, error) {
 		builder.fallbackLocale = builder.sourceLocale
 	}
 
+	// The printer only knows the languages after its initialization.
+	builder.sourceLocale.printFunc = builder.printer.GetPrintFunc(builder.sourceLocale.language)
+	for lang, loc := range builder.locales {
+		loc.printFunc = builder.printer.GetPrintFunc(lang)
+	}
+
 	return builder.Bundle, nil
 }
 
diff --git a/locale.go b/locale.go
index af3826f..2b22734 100644
--- a/locale.go
+++ b/locale.go
@@ -22,7 +22,6 @@ func buildLocale(bundle *Bundle, lang language.Tag, catalogs map[string]catalog.
 		bundle:         bundle,
 		language:       lang,
 		domainCatalogs: catalogs,
-		printFunc:      bundle.printer.GetPrintFunc(lang),
 	}
 
 	l.pluralFunc, _ = poplural.ForLanguage(lang)
@@ -34,7 +33,6 @@ func buildSourceLocale(bundle *Bundle, sourceLang language.Tag) *locale {
 	l := &locale{
 		bundle:           bundle,
 		language:         sourceLang,
-		printFunc:        bundle.printer.GetPrintFunc(sourceLang),
 		isSourceLanguage: true,
 	}
 	l.pluralFunc, _ = poplural.ForLanguage(sourceLang)
-- 
2.43.0


From baf7c5a64bad255272ca96fc723bdd77bb7bba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 03/58] fix: gettext catalogs know the domain they were decoded
 for

---
 catalog/po_decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index 6edc53b..ed2ed80 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -127,6 +127,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 
 	cat := &GettextCatalog{
 		language:  lang,
+		domain:    domain,
 		lookupMap: lookupMap,
 	}
 
-- 
2.43.0


From 41ca54c678d7ca5a0116f9b4559f0254721005a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 04/58] fix: po parser keeps entries, comments and plural forms
 apart without blank lines

Entries that follow each other without a blank line were merged or lost, the
first comment line after an entry was swallowed, a blank line inside an entry
turned its translation into a header, continuation lines of msgstr[x] went to
the wrong index, and text directly after msgstr or msgstr[x] was cut off.
---
 catalog/po/parser.go | 71 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 15 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 5f18bab..9339167 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -53,6 +53,7 @@ func (p *Parser) SetIgnoreComments(ignore bool) { p.ignoreComments = ignore }
 func (p *Parser) reset() {
 	p.messages = make(Messages, avgContextsPerFile)
 	p.header = nil
+	p.n = 0
 }
 
 func (p *Parser) Parse(r io.Reader) (*File, error) {
@@ -153,33 +154,74 @@ loop:
 		}
 	}
 
+	// started is set as soon as the message has a keyword, and hasID if it has an msgid.
+	// singular is set if the message has a msgstr without an index.
+	var started, hasID, singular bool
+	var lastIdx int // index of the last msgstr[x]
 	for {
 		tok, lit := p.scan()
 		switch tok {
 		case failure:
 			return nil, p.buildPosError()
-		case eof, whitespace, commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+		case eof:
+			if started && !hasID {
+				return nil, p.buildPosError()
+			}
+			return msg, nil
+		case whitespace:
+			if started && len(msg.Str) == 0 {
+				// The translation is still missing
+				continue
+			}
 			// Message completed
 			return msg, nil
+		case commentTranslator, commentExtracted, commentReference, commentFlags,
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			if len(msg.Str) == 0 {
+				return nil, p.buildPosError()
+			}
+			// Message completed, the comment belongs to the next message
+			p.unscan()
+			return msg, nil
 		case msgContext:
-			line := lit[8:] // msgctxt
-			msg.Context = DecodePoString(line)
+			if len(msg.Str) > 0 {
+				// Message completed, the context belongs to the next message
+				p.unscan()
+				return msg, nil
+			}
+			if started {
+				return nil, p.buildPosError()
+			}
+			started = true
+			msg.Context = DecodePoString(lit)
 		case msgContextLine:
 			msg.Context += DecodePoString(lit)
 		case msgID:
-			line := lit[6:] // msgid
-			msg.ID = DecodePoString(line)
+			if len(msg.Str) > 0 {
+				// Message completed, the id belongs to the next message
+				p.unscan()
+				return msg, nil
+			}
+			if hasID {
+				return nil, p.buildPosError()
+			}
+			started, hasID = true, true
+			msg.ID = DecodePoString(lit)
 		case msgIDLine:
 			msg.ID += DecodePoString(lit)
 		case msgIDPlural:
-			line := lit[13:] // msgid_plural
-			msg.IDPlural = DecodePoString(line)
+			if !hasID || msg.IDPlural != "" || len(msg.Str) > 0 {
+				return nil, p.buildPosError()
+			}
+			msg.IDPlural = DecodePoString(lit)
 		case msgIDPluralLine:
 			msg.IDPlural += DecodePoString(lit)
 		case msgStr:
-			line := lit[7:] // msgstr
-			msg.Str[0] = DecodePoString(line)
+			if !hasID || len(msg.Str) > 0 {
+				return nil, p.buildPosError()
+			}
+			singular = true
+			msg.Str[0] = DecodePoString(lit)
 		case msgStrLine:
 			msg.Str[0] += DecodePoString(lit)
 		case msgStrPlural:
@@ -191,13 +233,12 @@ loop:
 				return nil, fmt.Errorf("po file contains an invalid index for a plural translation (line %d)", p.s.pos)
 			}
 
-			line := lit[10:] // msgstr[x]
-			msg.Str[idx] = DecodePoString(line)
-		case msgStrPluralLine:
-			lastIdx := len(msg.Str) - 1
-			if lastIdx < 0 {
+			if _, ok := msg.Str[idx]; !hasID || singular || ok {
 				return nil, p.buildPosError()
 			}
+			lastIdx = idx
+			msg.Str[idx] = DecodePoString(lit)
+		case msgStrPluralLine:
 			msg.Str[lastIdx] += DecodePoString(lit)
 		default:
 			return nil, p.buildPosError()
-- 
2.43.0


From 7dd82bf326331cc06dcdfc1604c2277541468e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 05/58] fix: po parser reports read errors and reads lines of
 any length

A reader error or a line longer than 64 KiB was taken for the end of the file,
which delivered a truncated catalog without an error.
---
 catalog/po/parser.go  | 9 ++++++++-
 catalog/po/scanner.go | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 9339167..99e050e 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -63,11 +63,18 @@ func (p *Parser) Parse(r io.Reader) (*File, error) {
 
 	// special case, empty file
 	if tok, _ := p.scan(); tok == eof {
+		if errRead := p.s.lineScanner.Err(); errRead != nil {
+			return nil, fmt.Errorf("po file could not be read: %w", errRead)
+		}
 		return nil, errors.New("po file cannot be empty")
 	}
 	p.unscan()
 
-	return p.parseFile()
+	file, err := p.parseFile()
+	if errRead := p.s.lineScanner.Err(); errRead != nil {
+		return nil, fmt.Errorf("po file could not be read: %w", errRead)
+	}
+	return file, err
 }
 
 func (p *Parser) parseFile() (*File, error) {
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 6261675..e168be2 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bufio"
 	"io"
+	"math"
 	"regexp"
 	"strings"
 )
@@ -39,8 +40,10 @@ type scanner struct {
 
 func newScanner(r io.Reader) *scanner {
 	// content = bytes.ReplaceAll(content, []byte("\r"), []byte(""))
+	lineScanner := bufio.NewScanner(r)
+	lineScanner.Buffer(nil, math.MaxInt) // lines can be of any length
 	return &scanner{
-		lineScanner: bufio.NewScanner(r),
+		lineScanner: lineScanner,
 	}
 }
 
-- 
2.43.0


From 314dcd517267926d072f66e20c45cc9fb1f179ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 06/58] fix: po parser skips any number of comment lines
 without recursion

Each skipped comment used stack space, a file with many of them ended the
process with a stack overflow.
---
 catalog/po/scanner.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index e168be2..5878298 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -48,11 +48,17 @@ func newScanner(r io.Reader) *scanner {
 }
 
 func (s *scanner) scan() (tok token, lit string) {
-	line, err := s.read()
-	defer func() {
-		s.lastToken = tok
-	}()
+	// Skipped comments are read in a loop, files can contain any number of them
+	for tok = none; tok == none; {
+		tok, lit = s.scanLine()
+	}
+	s.lastToken = tok
+	return tok, lit
+}
 
+// scanLine reads the next line. For comments that are to be skipped, none is returned.
+func (s *scanner) scanLine() (tok token, lit string) {
+	line, err := s.read()
 	if err != nil {
 		return eof, ""
 	}
@@ -130,7 +136,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	// comment without content
 	if lineLen == 1 {
 		if s.ignoreComments {
-			return s.scan()
+			return none, ""
 		}
 		return commentTranslator, line
 	}
@@ -139,7 +145,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	if lineLen == 2 {
 		switch line[1] {
 		case '.', ':', ',', '|':
-			return s.scan()
+			return none, ""
 		}
 	}
 
@@ -149,7 +155,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 			// Flag comments will always be read
 			break
 		default:
-			return s.scan()
+			return none, ""
 		}
 	}
 
-- 
2.43.0


From a77cc892582eaff37252544758a6e2cc711f97e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:56 +0000
Subject: [PATCH 07/58] fix: po references keep paths with colons and any white
 space between them

A path was cut at its first colon, and several blanks between references
produced references with an empty path.
---
 catalog/po/parser.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 99e050e..4122a0c 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -300,27 +300,13 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
-			rawReferences := strings.Split(line, " ")
-			for _, rawRef := range rawReferences {
-				rawRef = strings.TrimSpace(rawRef)
-				colonIdx := strings.Index(rawRef, ":")
-				if colonIdx <= 0 {
-					// no line number
-					ref := &Reference{
-						Path: rawRef,
-						Line: -1,
+			for _, rawRef := range strings.Fields(line) {
+				ref := &Reference{Path: rawRef, Line: -1}
+				// The path itself can contain colons
+				if colonIdx := strings.LastIndex(rawRef, ":"); colonIdx > 0 {
+					if lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:]); err == nil {
+						ref.Path, ref.Line = rawRef[:colonIdx], lineNumber
 					}
-					comment.References = append(comment.References, ref)
-					continue
-				}
-
-				lineNumber, err := strconv.Atoi(rawRef[colonIdx+1:])
-				if err != nil {
-					lineNumber = -1
-				}
-				ref := &Reference{
-					Path: rawRef[:colonIdx],
-					Line: lineNumber,
 				}
 				comment.References = append(comment.References, ref)
 			}
-- 
2.43.0


From 05981cc9835bb040b1af57c329adf4d9550f1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 08/58] fix: po parser keeps empty lines of extracted comments

---
 catalog/po/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index 5878298..ce1a46a 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -144,7 +144,7 @@ func (s *scanner) scanComment(line string) (token, string) {
 	// special comment without content
 	if lineLen == 2 {
 		switch line[1] {
-		case '.', ':', ',', '|':
+		case ':', ',', '|':
 			return none, ""
 		}
 	}
-- 
2.43.0


From c3b24c10d7a4fad58157a6da5f15db173deb22d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:10 +0000
Subject: [PATCH 09/58] fix: decoding a po string with a backslash at its end
 terminates

---
 catalog/po/po_string.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index fde2ddf..6d7151d 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -360,10 +360,13 @@ func unescapePoBytes(s []byte) []byte {
 		}
 		switch c := s[r]; {
 		case c == '\\':
-			if r+1 >= len(s) {
+			r++
+			if r == len(s) {
+				// a single backslash at the end
+				b[w] = '\\'
+				w++
 				break
 			}
-			r++
 			switch s[r] {
 			case 'a':
 				b[w] = '\a'
-- 
2.43.0


From 64d36de5408d7fa691c0f468f0ae97f8db9d5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:25 +0000
Subject: [PATCH 10/58] fix: control characters survive encoding and decoding
 of po strings

Encoding most of them panicked, and the decoder did not know the escape.
---
 catalog/po/po_string.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/catalog/po/po_string.go b/catalog/po/po_string.go
index 6d7151d..93e779d 100644
--- a/catalog/po/po_string.go
+++ b/catalog/po/po_string.go
@@ -3,6 +3,7 @@ package po
 import (
 	"bytes"
 	"fmt"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -295,7 +296,7 @@ func escapePoString(s string) string {
 			default:
 				buf.WriteByte('x')
 				buf.WriteByte(hex[b>>4])
-				buf.WriteByte(hex[hex[b&0xF]])
+				buf.WriteByte(hex[b&0xF])
 			}
 			i++
 			start = i
@@ -400,6 +401,18 @@ func unescapePoBytes(s []byte) []byte {
 				b[w] = '\v'
 				r++
 				w++
+			case 'x':
+				// The encoder writes other control characters as two hex digits
+				if r+2 < len(s) {
+					if val, err := strconv.ParseUint(string(s[r+1:r+3]), 16, 8); err == nil && val < utf8.RuneSelf {
+						b[w] = byte(val)
+						r += 3
+						w++
+						break
+					}
+				}
+				b[w] = '\\'
+				w++
 			default:
 				b[w] = '\\'
 				w++
-- 
2.43.0


From 3108751245b5b90349c322df8457148dcd68cae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 11/58] fix: po encoder writes the same bytes for the same
 content

Unknown header fields and messages with an equal first reference were written
in random order, and comparing references was not transitive.
---
 catalog/po/encoder.go | 57 ++++++++++++++++---------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 97406cb..b614230 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -2,6 +2,7 @@ package po
 
 import (
 	"bytes"
+	"cmp"
 	"fmt"
 	"io"
 	"maps"
@@ -95,13 +96,13 @@ func (enc *Encoder) encode(f *File) []byte {
 
 	if f.Messages != nil {
 		messages := make([]*Message, 0, len(f.Messages))
-		for ctx := range f.Messages {
-			for _, msg := range f.Messages[ctx] {
-				messages = append(messages, msg)
+		for _, ctx := range slices.Sorted(maps.Keys(f.Messages)) {
+			for _, id := range slices.Sorted(maps.Keys(f.Messages[ctx])) {
+				messages = append(messages, f.Messages[ctx][id])
 			}
 		}
 		if enc.sortFunction != nil {
-			slices.SortFunc(messages, enc.sortFunction)
+			slices.SortStableFunc(messages, enc.sortFunction)
 		}
 		for i, msg := range messages {
 			if i > 0 {
@@ -137,8 +138,8 @@ func (enc *Encoder) encodeHeader(buff *bytes.Buffer, h *Header) {
 		{HeaderXGenerator, h.XGenerator},
 	}
 
-	for k, v := range h.UnknownFields {
-		headers = append(headers, headerEntry{k, v})
+	for _, k := range slices.Sorted(maps.Keys(h.UnknownFields)) {
+		headers = append(headers, headerEntry{k, h.UnknownFields[k]})
 	}
 
 	if !enc.writeEmptyHeader {
@@ -273,36 +274,8 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 }
 
 func DefaultSortFunction(a *Message, b *Message) int {
-	if a.Comment != nil && b.Comment != nil {
-		a.Comment.sort()
-		b.Comment.sort()
-
-		for i := 0; i < len(a.Comment.References); i++ {
-			if i >= len(b.Comment.References) {
-				break
-			}
-			if c := strings.Compare(a.Comment.References[i].Path, b.Comment.References[i].Path); c != 0 {
-				return c
-			}
-			if c, k := a.Comment.References[i].Line, b.Comment.References[i].Line; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-			if c, k := a.Comment.References[i].Column, b.Comment.References[i].Column; c != k {
-				if c > k {
-					return 1
-				} else {
-					return -1
-				}
-			}
-
-			if c, k := a.Comment.References[i].Path, b.Comment.References[i].Path; c != "" && k != "" {
-				return strings.Compare(c, k)
-			}
-		}
+	if c := slices.CompareFunc(sortedReferences(a), sortedReferences(b), compareReferences); c != 0 {
+		return c
 	}
 
 	if c := strings.Compare(a.Context, b.Context); c != 0 {
@@ -315,3 +288,15 @@ func DefaultSortFunction(a *Message, b *Message) int {
 
 	return 0
 }
+
+func sortedReferences(m *Message) []*Reference {
+	if m.Comment == nil {
+		return nil
+	}
+	m.Comment.sort()
+	return m.Comment.References
+}
+
+func compareReferences(a, b *Reference) int {
+	return cmp.Or(cmp.Compare(a.Path, b.Path), cmp.Compare(a.Line, b.Line), cmp.Compare(a.Column, b.Column))
+}
-- 
2.43.0


From 96de90276ac50c46e2cb4e49815456e590097b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 12/58] fix: po encoder escapes header values

---
 catalog/po/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index b614230..881390a 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -165,9 +165,9 @@ msgstr ""
 			continue
 		}
 		buff.WriteRune('"')
-		buff.WriteString(header.key)
+		buff.WriteString(escapePoString(header.key))
 		buff.WriteString(": ")
-		buff.WriteString(header.value)
+		buff.WriteString(escapePoString(header.value))
 		buff.WriteString("\\n\"\n")
 	}
 }
-- 
2.43.0


From 7063df5f7712f987e2b3e3c021330b4af0870b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 13/58] fix: po encoder writes messages that only have a later
 plural form

A single translation with an index other than 0 was overwritten or produced an
invalid file.
---
 catalog/po/encoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/catalog/po/encoder.go b/catalog/po/encoder.go
index 881390a..ceed854 100644
--- a/catalog/po/encoder.go
+++ b/catalog/po/encoder.go
@@ -235,7 +235,8 @@ func (enc *Encoder) encodeMessage(buff *bytes.Buffer, m *Message) {
 	buff.WriteString(EncodePoString(m.ID, enc.wrapWidth))
 	buff.WriteString("\n")
 
-	hasPlural := m.IDPlural != "" || len(m.Str) > 1
+	_, hasSingular := m.Str[0]
+	hasPlural := m.IDPlural != "" || len(m.Str) > 1 || (len(m.Str) == 1 && !hasSingular)
 	if hasPlural {
 		buff.WriteString("msgid_plural ")
 		buff.WriteString(EncodePoString(m.IDPlural, enc.wrapWidth))
@@ -252,7 +253,7 @@ func (enc *Encoder) encodeTranslations(buff *bytes.Buffer, plural bool, orig map
 	}
 
 	// We need at least one entry
-	if len(m) == 0 {
+	if _, ok := m[0]; !ok {
 		m[0] = `""`
 	}
 
-- 
2.43.0


From 70c3057c3fdf41b0ede3a5c06e032355d8234dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 14/58] fix: unknown po header fields are case-insensitive when
 they are set

Get compares them that way, so two spellings of a field made its value random.
---
 catalog/po/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catalog/po/file.go b/catalog/po/file.go
index 1409424..7120877 100644
--- a/catalog/po/file.go
+++ b/catalog/po/file.go
@@ -151,6 +151,11 @@ func (h *Header) Set(key, val string) {
 		if h.UnknownFields == nil {
 			h.UnknownFields = make(map[string]string, 1)
 		}
+		for unknownHeader := range h.UnknownFields {
+			if strings.EqualFold(unknownHeader, key) {
+				key = unknownHeader
+			}
+		}
 		h.UnknownFields[key] = val
 	}
 }
-- 
2.43.0


From 1adb5b1ee3144c12cec713fafeffc31a4443b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:04 +0000
Subject: [PATCH 15/58] fix: mo files with tables or texts beyond their end are
 rejected

Texts that reached beyond the end of the file, or that the reader delivered in
parts, were filled with zeros, and the number of messages was trusted without
checking, which could exhaust the memory.
---
 internal/mo/parser.go | 54 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/internal/mo/parser.go b/internal/mo/parser.go
index ce632ed..8e6c622 100644
--- a/internal/mo/parser.go
+++ b/internal/mo/parser.go
@@ -33,6 +33,9 @@ type parser struct {
 	hashSize     uint32
 	hashOffset   uint32
 	messageData  []*msgData
+
+	// content of the whole file, the messages are parts of it
+	content string
 }
 
 type msgData struct {
@@ -66,6 +69,10 @@ func (p *parser) parse() (*po.File, error) {
 		return nil, err
 	}
 
+	if err := p.readContent(); err != nil {
+		return nil, err
+	}
+
 	if err := p.parseMessageData(); err != nil {
 		return nil, err
 	}
@@ -127,7 +134,25 @@ func (p *parser) parseHeader() error {
 	return nil
 }
 
+func (p *parser) readContent() error {
+	if _, err := p.r.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+	data, err := io.ReadAll(p.r)
+	if err != nil {
+		return err
+	}
+	p.content = string(data)
+	return nil
+}
+
 func (p *parser) parseMessageData() error {
+	size := uint64(len(p.content))
+	tableSize := uint64(p.msgIDCount) * 8
+	if uint64(p.msgIDOffset)+tableSize > size || uint64(p.msgStrOffset)+tableSize > size {
+		return io.ErrUnexpectedEOF
+	}
+
 	p.messageData = make([]*msgData, p.msgIDCount)
 
 	if _, err := p.r.Seek(int64(p.msgIDOffset), io.SeekStart); err != nil {
@@ -206,25 +231,19 @@ func (p *parser) parseMessages() (*po.File, error) {
 }
 
 func (p *parser) parseMessage(data *msgData) (id string, localized string, err error) {
-	if _, err = p.r.Seek(int64(data.idOffset), 0); err != nil {
-		return
-	}
-	tmp := make([]byte, data.idLength)
-	if err = p.read(tmp); err != nil {
-		return
-	}
-	id = string(tmp)
-
-	if _, err = p.r.Seek(int64(data.translationOffset), 0); err != nil {
+	if id, err = p.text(data.idOffset, data.idLength); err != nil {
 		return
 	}
+	localized, err = p.text(data.translationOffset, data.translationLength)
+	return
+}
 
-	tmp = make([]byte, data.translationLength)
-	if err = p.read(tmp); err != nil {
-		return
+func (p *parser) text(offset, length uint32) (string, error) {
+	end := uint64(offset) + uint64(length)
+	if end > uint64(len(p.content)) {
+		return "", io.ErrUnexpectedEOF
 	}
-	localized = string(tmp)
-	return
+	return p.content[offset:end], nil
 }
 
 func (p *parser) parseMessageHeader(msg *po.Message) (header *po.Header) {
@@ -249,8 +268,3 @@ func (p *parser) parseMessageHeader(msg *po.Message) (header *po.Header) {
 func (p *parser) binaryRead(data any) error {
 	return binary.Read(p.r, p.bo, data)
 }
-
-func (p *parser) read(d []byte) error {
-	_, err := p.r.Read(d)
-	return err
-}
-- 
2.43.0


From d9386681567e8e2372ac3616c214cd71e3c8dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 16/58] fix: GettextCatalog.Messages copies the messages
 instead of panicking

---
 catalog/po.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/catalog/po.go b/catalog/po.go
index dbe8df8..25fb5b1 100644
--- a/catalog/po.go
+++ b/catalog/po.go
@@ -66,8 +66,7 @@ func (c *GettextCatalog) Messages() PoLookupMap {
 	for ctx := range c.lookupMap {
 		cpy[ctx] = make(map[string]*GettextMessage, len(c.lookupMap[ctx]))
 
-		for msgID := range c.lookupMap[ctx] {
-			msg := cpy[ctx][msgID]
+		for msgID, msg := range c.lookupMap[ctx] {
 			cpy[ctx][msgID] = msg.Clone()
 		}
 	}
-- 
2.43.0


From be9f7e6ea7784b5d070db5844e30d47b967476c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 17/58] fix: wrapped po comments keep long words after leading
 white space together

---
 catalog/po/wrap.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/catalog/po/wrap.go b/catalog/po/wrap.go
index bc853b9..a79fb8e 100644
--- a/catalog/po/wrap.go
+++ b/catalog/po/wrap.go
@@ -41,11 +41,6 @@ func wrapString(s string, pageWidth int) []string {
 					currentLine.Reset()
 					lastSpaceBuf.Reset()
 				}
-
-				if lastSpaceBuf.Len() > 0 {
-					lastSpaceBuf.WriteInto(currentLine)
-					currentWordBuf.WriteInto(currentLine)
-				}
 			}
 
 			currentWordBuf.WriteRune(char)
-- 
2.43.0


From 837b612deab69c1e12d286759308cdd25e7d3e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:48 +0000
Subject: [PATCH 18/58] fix: every non-zero value of a plural formula counts as
 true

---
 catalog/poplural/rule.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 01c7e43..72dc327 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -82,16 +82,16 @@ func evaluateNode(node ast.Node, num int64) int64 {
 	case *ast.OperandExpr:
 		return num
 	case *ast.QuestionMarkExpr:
-		if evaluateNode(v.Cond, num) == 1 {
+		if evaluateNode(v.Cond, num) != 0 {
 			return evaluateNode(v.T, num)
 		}
 		return evaluateNode(v.F, num)
 	case *ast.BinaryExpr:
 		switch v.Type() {
 		case ast.LogicalAnd:
-			conditionTrue = evaluateNode(v.X, num) == 1 && evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 && evaluateNode(v.Y, num) != 0
 		case ast.LogicalOr:
-			conditionTrue = evaluateNode(v.X, num) == 1 || evaluateNode(v.Y, num) == 1
+			conditionTrue = evaluateNode(v.X, num) != 0 || evaluateNode(v.Y, num) != 0
 		case ast.Equal:
 			conditionTrue = evaluateNode(v.X, num) == evaluateNode(v.Y, num)
 		case ast.NotEqual:
-- 
2.43.0


From ca85fc4412934a5953fcc2d0e18ef225ea7d5880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 19/58] fix: malformed and too large numbers in plural formulas
 are rejected

---
 catalog/poplural/ast/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 2b439e4..674342e 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -50,7 +50,11 @@ func (p *parser) Parse() (*Forms, error) {
 	if tok, lit := p.scanIgnoreWhitespace(); tok != Value {
 		return nil, fmt.Errorf("po parser: found %q, expected '=' after nplurals", lit)
 	} else {
-		forms.NPlurals, _ = strconv.Atoi(lit)
+		nplurals, err := strconv.Atoi(lit)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: found %q, expected a number after 'nplurals='", lit)
+		}
+		forms.NPlurals = nplurals
 	}
 
 	if tok, lit := p.scanIgnoreWhitespace(); tok != semicolon {
@@ -285,7 +289,10 @@ func (p *parser) pmExpression() (Node, error) {
 		}
 		return &OperandExpr{}, nil
 	case Value:
-		value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+		value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+		if err != nil {
+			return nil, fmt.Errorf("po parser: found %q, expected a number", p.lastLiteral)
+		}
 		if errScan := p.scanNext(); errScan != nil {
 			return nil, errScan
 		}
-- 
2.43.0


From 825ed91950ea2145c56f3781162339ea262767ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 20/58] fix: a NUL character does not end a plural formula

---
 catalog/poplural/ast/scanner.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/catalog/poplural/ast/scanner.go b/catalog/poplural/ast/scanner.go
index b5320b6..ff61e11 100644
--- a/catalog/poplural/ast/scanner.go
+++ b/catalog/poplural/ast/scanner.go
@@ -39,8 +39,6 @@ func (s *scanner) scan() (tok Token, lit string) {
 	}
 
 	switch ch {
-	case scannerEOF:
-		return eof, ""
 	case '%':
 		return Reminder, string(ch)
 	case '?':
@@ -167,4 +165,4 @@ func isLetter(ch rune) bool { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && c
 func isDigit(ch rune) bool { return ch >= '0' && ch <= '9' }
 
 // eof represents a marker rune for the end of the reader.
-var scannerEOF = rune(0)
+const scannerEOF = rune(-1)
-- 
2.43.0


From f9d1599c063804f103c3c59bbc45e5aabe8dd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 21/58] fix: a plural formula that only looks like a built-in
 rule without its brackets keeps its meaning

---
 catalog/poplural/rule.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 72dc327..88c7bb3 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -2,6 +2,7 @@ package poplural
 
 import (
 	"math"
+	"reflect"
 
 	"github.com/vorlif/spreak/catalog/poplural/ast"
 	"github.com/vorlif/spreak/internal/cast"
@@ -50,9 +51,12 @@ func Parse(raw string) (*Rule, error) {
 	}
 
 	// Use of built-in functions, if available
+	// The compiled text omits most brackets, a built-in rule applies only if it still means the same.
 	compiledRaw := ast.CompileToString(parsed)
 	if rule := getBuiltInForRawRule(compiledRaw); rule != nil {
-		return rule, nil
+		if reparsed, errRe := ast.Parse(compiledRaw); errRe == nil && reflect.DeepEqual(reparsed, parsed) {
+			return rule, nil
+		}
 	}
 
 	f := &Rule{
-- 
2.43.0


From 5850dec8f0563f59944cf97dfe75160873454c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 22/58] fix: plural forms of large integers are exact, and
 those of values out of range are errors

---
 catalog/poplural/rule.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/catalog/poplural/rule.go b/catalog/poplural/rule.go
index 88c7bb3..759cc7a 100644
--- a/catalog/poplural/rule.go
+++ b/catalog/poplural/rule.go
@@ -1,8 +1,10 @@
 package poplural
 
 import (
+	"fmt"
 	"math"
 	"reflect"
+	"strconv"
 
 	"github.com/vorlif/spreak/catalog/poplural/ast"
 	"github.com/vorlif/spreak/internal/cast"
@@ -22,13 +24,44 @@ type Rule struct {
 // If the value is not an integer, it is formatted accordingly.
 // If formatting is not possible, an error is returned.
 func (f *Rule) Evaluate(a any) (int, error) {
+	num, err := magnitude(a)
+	if err != nil {
+		return 0, err
+	}
+
+	return f.FormFunc(num), nil
+}
+
+// magnitude returns the absolute value of a number, rounded to an integer.
+// Integers are not converted to floating point numbers, so that no digits are lost.
+func magnitude(a any) (int64, error) {
+	a = cast.Indirect(a)
+
+	switch v := reflect.ValueOf(a); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if n := v.Int(); n > math.MinInt64 {
+			return max(n, -n), nil
+		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		if n := v.Uint(); n <= math.MaxInt64 {
+			return int64(n), nil
+		}
+	case reflect.String:
+		if n, err := strconv.ParseInt(v.String(), 10, 64); err == nil && n > math.MinInt64 {
+			return max(n, -n), nil
+		}
+	}
+
 	num, err := cast.ToNumber(a)
 	if err != nil {
 		return 0, err
 	}
 
 	num = math.RoundToEven(math.Abs(num))
-	return f.FormFunc(int64(num)), nil
+	if !(num < math.MaxInt64) {
+		return 0, fmt.Errorf("number %v is out of range", a)
+	}
+	return int64(num), nil
 }
 
 // MustParse is like Parse, but panics if the given rule string cannot be parsed.
-- 
2.43.0


From 10c1dd1a016af00c88f518784f6ba7f6ff88d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:51 +0000
Subject: [PATCH 23/58] fix: endlessly nested plural formulas are rejected
 instead of exhausting the stack

---
 catalog/poplural/ast/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/catalog/poplural/ast/parser.go b/catalog/poplural/ast/parser.go
index 674342e..e864234 100644
--- a/catalog/poplural/ast/parser.go
+++ b/catalog/poplural/ast/parser.go
@@ -12,8 +12,12 @@ type Forms struct {
 	Root     Node
 }
 
+// maxTokens limits the length, and with it the nesting, of a formula.
+const maxTokens = 10000
+
 type parser struct {
 	s           *scanner
+	tokens      int    // number of read tokens
 	lastToken   Token  // last read Token
 	lastLiteral string // last read literal
 	n           int    // buffer size (max=1)
@@ -335,6 +339,9 @@ func (p *parser) scan() (tok Token, lit string) {
 	}
 
 	tok, lit = p.s.scan()
+	if p.tokens++; p.tokens > maxTokens {
+		tok, lit = failure, "too long formula"
+	}
 
 	p.lastToken, p.lastLiteral = tok, lit
 
-- 
2.43.0


From 964ee6d1c3dfb53dbb683bb526808e29571b49da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:08 +0000
Subject: [PATCH 24/58] fix: a nil pointer is not the number zero

---
 internal/cast/number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cast/number.go b/internal/cast/number.go
index 0934cf7..2539217 100644
--- a/internal/cast/number.go
+++ b/internal/cast/number.go
@@ -9,7 +9,7 @@ import (
 
 func ToNumber(n any) (float64, error) {
 	n = Indirect(n)
-	if n == nil {
+	if n == nil || reflect.TypeOf(n).Kind() == reflect.Ptr {
 		return 0, errors.New("number is nil")
 	}
 
-- 
2.43.0


From c2ce74694479630a67e246d7b932d28aee20b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:06 +0000
Subject: [PATCH 25/58] fix: cldr operands of negative, very large and very
 small numbers are exact or an error

---
 catalog/cldrplural/cldr.go | 112 +++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 49 deletions(-)

diff --git a/catalog/cldrplural/cldr.go b/catalog/cldrplural/cldr.go
index 201566d..bc17b10 100644
--- a/catalog/cldrplural/cldr.go
+++ b/catalog/cldrplural/cldr.go
@@ -3,13 +3,16 @@ package cldrplural
 import (
 	"errors"
 	"fmt"
-	"math"
+	"reflect"
 	"strconv"
 	"strings"
 
 	"github.com/vorlif/spreak/internal/cast"
 )
 
+// maxCompactExponent is the largest exponent of a number in the compact notation, e.g. 1.2c6.
+const maxCompactExponent = 100
+
 type Category int
 
 const (
@@ -94,79 +97,90 @@ func NewOperands(a any) (*Operands, error) {
 		return nil, errors.New("operands value is nil")
 	}
 
-	switch v := a.(type) {
-	case string:
-		return newOperandsString(v)
-	case int64:
-		return newOperandsInt(v), nil
-	case int:
-		return newOperandsInt(int64(v)), nil
-	case float32:
-		return newOperandsString(fmt.Sprintf("%v", v))
-	case float64:
-		return newOperandsString(fmt.Sprintf("%v", v))
+	switch v := reflect.ValueOf(a); v.Kind() {
+	case reflect.String:
+		return newOperandsString(v.String())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return newOperandsString(strconv.FormatInt(v.Int(), 10))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return newOperandsString(strconv.FormatUint(v.Uint(), 10))
+	case reflect.Float32:
+		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 32))
+	case reflect.Float64:
+		return newOperandsString(strconv.FormatFloat(v.Float(), 'f', -1, 64))
 	default:
-		num, err := cast.ToNumber(v)
+		num, err := cast.ToNumber(a)
 		if err != nil {
 			return nil, err
 		}
-		return newOperandsString(fmt.Sprintf("%v", num))
+		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
 	}
 }
 
-func newOperandsInt(i int64) *Operands {
-	if i < 0 {
-		i = -i
-	}
-	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
-}
-
 func newOperandsString(raw string) (*Operands, error) {
 	op := &Operands{}
 
-	if cIdx := strings.Index(raw, "c"); cIdx >= 0 {
-		c, err := strconv.Atoi(raw[cIdx+1:])
+	// The operands describe the absolute value.
+	number := raw
+	if strings.HasPrefix(raw, "-") || strings.HasPrefix(raw, "+") {
+		number = raw[1:]
+	}
+	number, exponent, isCompact := strings.Cut(number, "c")
+
+	if !isCompact && strings.ContainsAny(number, "eE") && strings.Trim(number, "0123456789.eE+-") == "" {
+		src, err := strconv.ParseFloat(number, 64)
 		if err != nil {
 			return nil, err
 		}
-		op.C = int64(c)
-		raw = shiftDecimalPoint(raw[:cIdx], c)
+		number = strconv.FormatFloat(src, 'f', -1, 64)
 	}
 
-	src, errP := strconv.ParseFloat(raw, 64)
-	if errP != nil {
-		return nil, errP
+	integer, fraction, _ := strings.Cut(number, ".")
+	if integer+fraction == "" || strings.Trim(integer+fraction, "0123456789") != "" {
+		return nil, fmt.Errorf("invalid number %q", raw)
 	}
 
-	op.N = math.Abs(src)
-	op.I = int64(src)
-
-	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
-		fractionDigits := raw[pointIdx+1:]
-		if fractionDigits != "" {
-			op.V = int64(len(fractionDigits))
-			f, err := strconv.ParseInt(fractionDigits, 10, 64)
-			if err != nil {
-				return nil, err
-			}
-			op.F = f
+	if isCompact {
+		c, err := strconv.Atoi(exponent)
+		if err != nil {
+			return nil, err
 		}
+		if c < 0 || c > maxCompactExponent {
+			return nil, fmt.Errorf("invalid exponent in %q", raw)
+		}
+		op.C = int64(c)
+		number = shiftDecimalPoint(number, c)
+		integer, fraction, _ = strings.Cut(number, ".")
+	}
 
-		withoutZeros := strings.TrimRight(fractionDigits, "0")
-		if withoutZeros != "" {
-			op.W = int64(len(withoutZeros))
-			t, err := strconv.ParseInt(withoutZeros, 10, 64)
-			if err != nil {
-				return nil, err
-			}
+	var err error
+	if op.N, err = strconv.ParseFloat(number, 64); err != nil {
+		return nil, err
+	}
+	if op.I, err = parseDigits(integer); err != nil {
+		return nil, err
+	}
+	if op.F, err = parseDigits(fraction); err != nil {
+		return nil, err
+	}
+	op.V = int64(len(fraction))
 
-			op.T = t
-		}
+	withoutZeros := strings.TrimRight(fraction, "0")
+	if op.T, err = parseDigits(withoutZeros); err != nil {
+		return nil, err
 	}
+	op.W = int64(len(withoutZeros))
 
 	return op, nil
 }
 
+func parseDigits(digits string) (int64, error) {
+	if digits == "" {
+		return 0, nil
+	}
+	return strconv.ParseInt(digits, 10, 64)
+}
+
 func shiftDecimalPoint(raw string, c int) string {
 	var s strings.Builder
 
-- 
2.43.0


From b9c718245dbedb3703ecd748d2331bf876a4e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:20 +0000
Subject: [PATCH 26/58] fix: parsed cldr rules are evaluated in a fixed order

---
 catalog/cldrplural/evaluation.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 22f6271..67188ca 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -2,6 +2,7 @@ package cldrplural
 
 import (
 	"math"
+	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
 	"github.com/vorlif/spreak/internal/util"
@@ -33,20 +34,20 @@ func ParseRules(rawRules map[Category]string) (*RuleSet, error) {
 	if _, hasOther := rawRules[Other]; !hasOther {
 		categories = append(categories, Other)
 	}
+	slices.Sort(categories)
 
-	formF := func(rules map[Category]*ast.Rule) FormFunc {
-		return func(ops *Operands) Category {
-			for cat, rule := range rules {
-				if evaluate(rule, ops) {
-					return cat
-				}
+	formF := func(ops *Operands) Category {
+		for _, cat := range categories {
+			// Other is the category of all numbers to which no other rule applies.
+			if cat != Other && evaluate(rules[cat], ops) {
+				return cat
 			}
-
-			return Other
 		}
-	}(rules)
 
-	return &RuleSet{Categories: categories, FormFunc: formF}, nil
+		return Other
+	}
+
+	return &RuleSet{Categories: slices.Clone(categories), FormFunc: formF}, nil
 }
 
 // Evaluates whether an abstract rule applies to an operation.
-- 
2.43.0


From 351eed0ad85702c2333e709b8388af2cc7b2a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 27/58] fix: cldr ranges only contain integers and are not
 searched value by value

---
 catalog/cldrplural/evaluation.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/catalog/cldrplural/evaluation.go b/catalog/cldrplural/evaluation.go
index 67188ca..8e753e7 100644
--- a/catalog/cldrplural/evaluation.go
+++ b/catalog/cldrplural/evaluation.go
@@ -5,7 +5,6 @@ import (
 	"slices"
 
 	"github.com/vorlif/spreak/catalog/cldrplural/ast"
-	"github.com/vorlif/spreak/internal/util"
 )
 
 func MustParseRules(rules map[Category]string) *RuleSet {
@@ -152,16 +151,9 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 		lower := rangeValues[i]
 		upper := rangeValues[i+1]
 
-		// If the value is not within the range, not every value needs to be checked.
-		if !(x >= float64(lower) && x <= float64(upper)) {
-			continue
-		}
-
-		// Checking each value
-		for v := lower; v <= upper; v++ {
-			if util.FloatEqual(float64(v), x) {
-				return true
-			}
+		// A range only contains integers.
+		if x >= float64(lower) && x <= float64(upper) && x == math.Trunc(x) {
+			return true
 		}
 	}
 
@@ -170,7 +162,7 @@ func isFloatInRange(x float64, rangeValues ...int64) bool {
 
 func isFloatOneOf(target float64, vals ...int64) bool {
 	for _, val := range vals {
-		if util.FloatEqual(float64(val), target) {
+		if float64(val) == target {
 			return true
 		}
 	}
-- 
2.43.0


From 867b761c88d2a88bd974cf219e993267c80c6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 28/58] fix: cldr rules accept operands in upper case and any
 number of ellipses

---
 catalog/cldrplural/ast/scanner.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/catalog/cldrplural/ast/scanner.go b/catalog/cldrplural/ast/scanner.go
index f47e20e..22f8853 100644
--- a/catalog/cldrplural/ast/scanner.go
+++ b/catalog/cldrplural/ast/scanner.go
@@ -49,15 +49,18 @@ func newScanner(content string) *scanner {
 
 func (s *scanner) Scan() (tok Token, lit string) {
 	lit, errR := s.read()
+	for errR == nil && (lit == "…" || lit == "..." || lit == ".") {
+		lit, errR = s.read()
+	}
 	if errR != nil {
 		return eof, ""
 	}
 
-	switch strings.ToLower(lit) {
+	switch lower := strings.ToLower(lit); lower {
 	case "":
 		return eof, ""
 	case "n", "i", "v", "w", "f", "t", "c", "e":
-		return Operand, lit
+		return Operand, lower
 	case "=":
 		return Equal, lit
 	case "%", "mod":
@@ -70,8 +73,6 @@ func (s *scanner) Scan() (tok Token, lit string) {
 		return And, lit
 	case "or":
 		return Or, lit
-	case "…", "...", ".":
-		return s.Scan()
 	}
 
 	if nextLit, err := s.read(); nextLit == ".." || nextLit == "~" {
-- 
2.43.0


From 9edea24f79a0a18f2d749f89b5aca79a60d5ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:38 +0000
Subject: [PATCH 29/58] fix: cldr rules with too large numbers or a division by
 zero are rejected

---
 catalog/cldrplural/ast/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index 12030e9..a1962ce 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -193,6 +193,9 @@ func (p *parser) expression() (Node, error) {
 		if errValue != nil {
 			return nil, errValue
 		}
+		if valueNode.Value == 0 {
+			return nil, fmt.Errorf("the remainder of a division by zero is not defined")
+		}
 
 		reminderNode := &ModuloExpr{
 			Op:    operandNode,
@@ -210,7 +213,10 @@ func (p *parser) value() (*ValueExpr, error) {
 		return nil, fmt.Errorf("expected value (\\d+), got %q", p.lastLiteral)
 	}
 
-	value, _ := strconv.ParseInt(p.lastLiteral, 10, 64)
+	value, err := strconv.ParseInt(p.lastLiteral, 10, 64)
+	if err != nil {
+		return nil, err
+	}
 
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
-- 
2.43.0


From 585f4796ca00bee7e7f48b608aeb40cb72ae98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:39 +0000
Subject: [PATCH 30/58] fix: endless cldr sample ranges and rules are rejected

---
 catalog/cldrplural/ast/parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/catalog/cldrplural/ast/parser.go b/catalog/cldrplural/ast/parser.go
index a1962ce..8106cb7 100644
--- a/catalog/cldrplural/ast/parser.go
+++ b/catalog/cldrplural/ast/parser.go
@@ -6,6 +6,13 @@ import (
 	"strings"
 )
 
+const (
+	// maxTokens limits the length and with it the depth of a rule.
+	maxTokens = 10000
+	// maxSamples limits the number of samples of a rule.
+	maxSamples = 10000
+)
+
 // The parser can translate a single rule into an abstract
 // tree of nodes. It implements the following grammar::
 //
@@ -70,6 +77,10 @@ func Parse(rawRule string) (*Rule, error) {
 }
 
 func (p *parser) Parse() (*Rule, error) {
+	if len(p.s.tokens) > maxTokens {
+		return nil, fmt.Errorf("the rule has more than %d tokens", maxTokens)
+	}
+
 	if errScan := p.scanNext(); errScan != nil {
 		return nil, errScan
 	}
@@ -316,6 +327,9 @@ func (p *parser) samples() ([]string, error) {
 			samples = append(samples, p.lastLiteral)
 		case sampleRange:
 			rangeValues := parseSampleRange(p.lastLiteral)
+			if len(rangeValues) == 0 || len(samples)+len(rangeValues) > maxSamples {
+				return nil, fmt.Errorf("invalid sample range %q", p.lastLiteral)
+			}
 			samples = append(samples, rangeValues...)
 		default:
 			return nil, fmt.Errorf("expected sample, got %q", p.lastLiteral)
@@ -348,10 +362,14 @@ func (p *parser) scan() (tok Token, lit string) {
 
 // sampleRange = sampleValue ('~' sampleValue)?
 // sampleValue = value ('.' digit+)? ([ce] digitPos digit+)?
+// No samples are returned if the end of the range is not reached by counting up.
 func parseSampleRange(sampleRange string) []string {
 	var sampleValues []string // sampleValue, sampleValue, sampleValue, ...
 	if parts := strings.Split(sampleRange, "~"); len(parts) == 2 {
 		for ex := parts[0]; ; ex = increment(ex) {
+			if len(ex) > len(parts[1]) || len(sampleValues) >= maxSamples {
+				return nil
+			}
 			sampleValues = append(sampleValues, ex)
 			if ex == parts[1] {
 				break
-- 
2.43.0


From e6e485d7ea65caac9334aaac9867db3b50729667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 31/58] fix: decoding the JSON document null fails instead of
 returning no catalog

---
 catalog/json_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalog/json_decoder.go b/catalog/json_decoder.go
index 8eb7f42..ff30804 100644
--- a/catalog/json_decoder.go
+++ b/catalog/json_decoder.go
@@ -16,7 +16,7 @@ func NewJSONDecoder() *JSONDecoder { return &JSONDecoder{} }
 
 func (JSONDecoder) Decode(lang language.Tag, domain string, data []byte) (Catalog, error) {
 	cat := NewJSONCatalog(lang, domain)
-	if err := json.Unmarshal(data, &cat); err != nil {
+	if err := json.Unmarshal(data, cat); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 595123e82798060300ee2b76b6d0579efb69fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 32/58] fix: fields of a JSON message that differ only in case
 are read in a fixed order

---
 catalog/json.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/catalog/json.go b/catalog/json.go
index 1df4597..492cf5f 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -323,7 +323,9 @@ func (m *JSONMessage) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
-	for key, value := range mm {
+	// A fixed order, in case names differ only in their case.
+	for _, key := range slices.Sorted(maps.Keys(mm)) {
+		value := mm[key]
 		switch strings.ToLower(key) {
 		case "comment":
 			m.Comment = value
-- 
2.43.0


From c24a6826d6f9ae19b71660af161e01f3e75a340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 33/58] fix: encoding a JSON message neither changes it nor
 loses a single category other than 'other'

---
 catalog/json.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/catalog/json.go b/catalog/json.go
index 492cf5f..302bb95 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -360,18 +360,16 @@ var categories = []cldrplural.Category{
 }
 
 func (m JSONMessage) MarshalJSON() ([]byte, error) {
-	if m.Translations == nil {
-		m.Translations = make(map[cldrplural.Category]string)
-	}
-
+	// The map of the caller is not changed.
 	if len(m.Translations) == 0 {
-		m.Translations[cldrplural.Other] = ""
+		m.Translations = map[cldrplural.Category]string{cldrplural.Other: ""}
 	}
 
 	// If only Other is set, only Other is returned.
 	if m.Comment == "" && m.Context == "" && len(m.Translations) == 1 {
-		other := m.Translations[cldrplural.Other]
-		return json.Marshal(other)
+		if other, hasOther := m.Translations[cldrplural.Other]; hasOther {
+			return json.Marshal(other)
+		}
 	}
 
 	var buf bytes.Buffer
-- 
2.43.0


From a0875042d5742b432a67eda723b779d74a228980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:43 +0000
Subject: [PATCH 34/58] fix: a JSON message replaces the one with the same key
 in another context

---
 catalog/json.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/catalog/json.go b/catalog/json.go
index 302bb95..beb2a11 100644
--- a/catalog/json.go
+++ b/catalog/json.go
@@ -179,6 +179,17 @@ func (c *jsonCatalog) setMessage(key string, srcMsg *JSONMessage) error {
 		c.lookupMap[ctx] = make(map[string]*JSONMessage)
 	}
 
+	// A message replaces the previous one with the same key, whatever its context was.
+	for other := range c.lookupMap {
+		if other == ctx {
+			continue
+		}
+		delete(c.lookupMap[other], key)
+		if len(c.lookupMap[other]) == 0 {
+			delete(c.lookupMap, other)
+		}
+	}
+
 	c.lookupMap[ctx][key] = msg
 	return nil
 }
-- 
2.43.0


From 060d1360b933a17bd99b5091d2a3dae75c1aea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 35/58] fix: the Plural-Forms header decides if CLDR rules are
 requested for a language without them

---
 catalog/po_decoder.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/catalog/po_decoder.go b/catalog/po_decoder.go
index ed2ed80..5202946 100644
--- a/catalog/po_decoder.go
+++ b/catalog/po_decoder.go
@@ -131,13 +131,7 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 		lookupMap: lookupMap,
 	}
 
-	hasPluralFormHeader := file.Header != nil && file.Header.PluralForms != ""
-	if useCLDRPlural || !hasPluralFormHeader {
-		cat.pluralFunc = getCLDRPluralFunction(lang)
-		return cat, nil
-	}
-
-	if val := file.Header.Get(poCLDRHeader); strings.EqualFold(val, "true") {
+	if useCLDR(file.Header, lang, useCLDRPlural) {
 		cat.pluralFunc = getCLDRPluralFunction(lang)
 		return cat, nil
 	}
@@ -150,6 +144,21 @@ func buildGettextCatalog(file *po.File, lang language.Tag, domain string, useCLD
 	return cat, nil
 }
 
+// useCLDR reports whether the plural forms of a file are chosen by the CLDR rules and not by its Plural-Forms header.
+// The header is also used when the CLDR rules are requested for a language for which there are none.
+func useCLDR(header *po.Header, lang language.Tag, requested bool) bool {
+	if header == nil || header.PluralForms == "" {
+		return true
+	}
+
+	if !requested && !strings.EqualFold(header.Get(poCLDRHeader), "true") {
+		return false
+	}
+
+	_, known := cldrplural.ForLanguage(lang)
+	return known
+}
+
 func getCLDRPluralFunction(lang language.Tag) func(a any) (int, error) {
 	ruleSet, _ := cldrplural.ForLanguage(lang)
 
-- 
2.43.0


From 286cd1564c070ccf177b4a8efe43d19e027e760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 36/58] fix: an error while reading or decoding a file is not
 taken for a missing file

---
 loader.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/loader.go b/loader.go
index 62d1562..56cfa8b 100644
--- a/loader.go
+++ b/loader.go
@@ -93,7 +93,7 @@ func NewFilesystemLoader(opts ...FsOption) (*FilesystemLoader, error) {
 
 func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catalog, error) {
 	for i, extension := range l.extensions {
-		cat, err := l.loadFromFile(lang, domain, extension, i)
+		resolvedPath, file, err := l.openFile(lang, domain, extension)
 		if err != nil {
 			if errors.Is(err, os.ErrNotExist) {
 				continue
@@ -101,22 +101,29 @@ func (l *FilesystemLoader) Load(lang language.Tag, domain string) (catalog.Catal
 			return nil, err
 		}
 
+		cat, err := l.loadFromFile(lang, domain, resolvedPath, file, i)
+		if err != nil {
+			return nil, err
+		}
+
 		return cat, nil
 	}
 
 	return nil, NewErrNotFound(lang, "file", "domain=%q", domain)
 }
 
-func (l *FilesystemLoader) loadFromFile(lang language.Tag, domain, extension string, decoderIndex int) (cat catalog.Catalog, err error) {
+// openFile opens the file for an extension, only its errors can mean that there is no such file.
+func (l *FilesystemLoader) openFile(lang language.Tag, domain, extension string) (string, fs.File, error) {
 	resolvedPath, err := l.resolver.Resolve(l.fsys, extension, lang, domain)
 	if err != nil {
-		return nil, err
+		return "", nil, err
 	}
 
 	file, err := l.fsys.Open(resolvedPath)
-	if err != nil {
-		return nil, err
-	}
+	return resolvedPath, file, err
+}
+
+func (l *FilesystemLoader) loadFromFile(lang language.Tag, domain, resolvedPath string, file fs.File, decoderIndex int) (cat catalog.Catalog, err error) {
 	defer func() {
 		if closeErr := file.Close(); closeErr != nil {
 			err = errors.Join(err, closeErr)
-- 
2.43.0


From 0eaf62acd6e7e8b77fe90ac6775d7edf609a75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 37/58] fix: a candidate file that cannot be examined stops the
 search instead of being skipped

---
 loader.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/loader.go b/loader.go
index 56cfa8b..9aeb60d 100644
--- a/loader.go
+++ b/loader.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 
 	"golang.org/x/text/language"
 
@@ -272,26 +273,32 @@ func (r *defaultResolver) Resolve(fsys fs.FS, extension string, tag language.Tag
 			continue
 		}
 
-		return searchPath, nil
+		return searchPath, err
 	}
 
 	return "", os.ErrNotExist
 }
 
 func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain, ext string) (string, error) {
-	// Helper function to try a path and return it if it exists
+	// Helper function to try a path and return it if it exists or cannot be examined
+	var statErr error
 	tryPath := func(pathElements ...string) (string, bool) {
 		searchPath := path.Join(pathElements...)
-		if _, err := fs.Stat(fsys, searchPath); err == nil {
+		_, err := fs.Stat(fsys, searchPath)
+		if err == nil {
 			return searchPath, true
 		}
+		if !isMissing(err) {
+			statErr = err
+			return "", true
+		}
 		return "", false
 	}
 
 	// .../locale/category/domain.mo
 	if domain != "" {
 		if searchPath, found := tryPath(locale, r.category, domain+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 	}
 
@@ -303,36 +310,42 @@ func (r *defaultResolver) searchFileForLanguageName(fsys fs.FS, locale, domain,
 	if domain != "" {
 		// .../locale/LC_MESSAGES/domain.mo
 		if searchPath, found := tryPath(locale, "LC_MESSAGES", domain+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 		// .../locale/domain.mo
 		if searchPath, found := tryPath(locale, domain+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 		// .../domain/locale.mo
 		if searchPath, found := tryPath(domain, locale+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 	}
 
 	// .../locale.mo
 	if searchPath, found := tryPath(locale + ext); found {
-		return searchPath, nil
+		return searchPath, statErr
 	}
 
 	// .../category/locale.mo
 	if r.category != "" {
 		if searchPath, found := tryPath(r.category, locale+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 	}
 
 	// .../LC_MESSAGES/locale.mo
 	if r.category != "LC_MESSAGES" {
 		if searchPath, found := tryPath("LC_MESSAGES", locale+ext); found {
-			return searchPath, nil
+			return searchPath, statErr
 		}
 	}
 
 	return "", os.ErrNotExist
 }
+
+// isMissing reports whether there can be no file at a path:
+// it does not exist, it is below a file or it is no path at all.
+func isMissing(err error) bool {
+	return errors.Is(err, fs.ErrNotExist) || errors.Is(err, fs.ErrInvalid) || errors.Is(err, syscall.ENOTDIR)
+}
-- 
2.43.0


From b3e6c5c03b6fac4058e360aa78885c7a0af267a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 38/58] fix: time options passed by the caller are not
 overwritten

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7c82961..4a6cfe8 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -2,6 +2,7 @@ package humanize
 
 import (
 	"math"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -361,7 +362,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now))
+	opts = append(slices.Clone(opts), WithNow(now))
 	return h.TimeSince(d, opts...)
 }
 
@@ -374,14 +375,14 @@ func (h *Humanizer) TimeUntil(d any, opts ...TimeOption) string {
 		return formatErrorMessage(d)
 	}
 
-	opts = append(opts, WithReverse(true))
+	opts = append(slices.Clone(opts), WithReverse(true))
 	return h.TimeSince(parsedTime, opts...)
 }
 
 // TimeUntilFrom works like TimeUntil, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeUntil(d, WithNow(now)).
 func (h *Humanizer) TimeUntilFrom(d any, now time.Time, opts ...TimeOption) string {
-	opts = append(opts, WithNow(now), WithReverse(true))
+	opts = append(slices.Clone(opts), WithNow(now), WithReverse(true))
 	return h.TimeSince(d, opts...)
 }
 
-- 
2.43.0


From 7d2a804df4dac45b994370767478e4c17f48a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 39/58] fix: elapsed months, weeks, days, hours and minutes are
 rounded down

---
 humanize/date.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 4a6cfe8..895a9eb 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -327,9 +327,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	since := delta
 
 	i := sort.Search(len(timeSinceChunks), func(i int) bool {
-		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
-		return count != 0
+		return countUnits(since, timeSinceChunks[i].seconds) != 0
 	})
 
 	if i == len(timeSinceChunks) {
@@ -341,7 +339,7 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	currentDepth := 0
 	for i < len(timeSinceChunks) && currentDepth < o.depth {
 		chunk := timeSinceChunks[i]
-		count := floorDivision(float64(since), float64(chunk.seconds))
+		count := countUnits(since, chunk.seconds)
 		i++
 		if count <= 0 {
 			if o.requireAdjacent {
@@ -359,6 +357,15 @@ func (h *Humanizer) TimeSince(inputTime any, opts ...TimeOption) string {
 	return strings.Join(result, h.loc.Get(", "))
 }
 
+// countUnits returns the number of whole units. Only for years there is a tolerance of a few hours,
+// by which the offset of a time zone can change over the years.
+func countUnits(since, unit int64) int64 {
+	if unit == timeSinceChunks[0].seconds {
+		return floorDivision(float64(since), float64(unit))
+	}
+	return int64(math.Floor(float64(since) / float64(unit)))
+}
+
 // TimeSinceFrom works like TimeSince, but the time to use as the comparison point can be specified.
 // Is equivalent to TimeSince(d, WithNow(now)).
 func (h *Humanizer) TimeSinceFrom(d any, now time.Time, opts ...TimeOption) string {
-- 
2.43.0


From f4b67e5e5e479e87ab2334f6f0ad8c965c158af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:06 +0000
Subject: [PATCH 40/58] fix: NaturalTime takes the unit and the count from the
 same number of seconds

---
 humanize/date.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 895a9eb..7e9c550 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -123,18 +123,17 @@ var naturalFutureSubstrings = map[string]gettextEntry{
 // Valid inputs are time.Time, time.Duration or any numeric value which is interpreted as seconds since the Unix epoch.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) NaturalTime(i any) string {
-	now := time.Now()
 	t, err := cast.ToTime(i)
 	if err != nil {
 		return formatErrorMessage(i)
 	}
 
-	now = now.In(t.Location())
+	now := time.Now().In(t.Location())
 	if t.Before(now) {
 		delta := now.Sub(t)
 		deltaSec := int64(delta.Truncate(time.Second).Seconds())
 
-		if int64(delta.Round(time.Second).Hours()) >= 24 {
+		if deltaSec >= 24*60*60 {
 			entry := naturalTimeStrings["past-day"]
 			timeSince := h.TimeSince(t, withTimeStrings(naturalPastSubstrings))
 			return h.loc.Getf(entry.singular, timeSince)
@@ -144,7 +143,7 @@ func (h *Humanizer) NaturalTime(i any) string {
 		} else if deltaSec < 60 {
 			entry := naturalTimeStrings["past-second"]
 			return h.loc.NGetf(entry.singular, entry.plural, deltaSec, deltaSec)
-		} else if floorDivision(delta.Round(time.Second).Seconds(), 60) < 60 {
+		} else if floorDivision(float64(deltaSec), 60) < 60 {
 			count := int64(math.Floor(float64(deltaSec) / 60))
 			entry := naturalTimeStrings["past-minute"]
 			return h.loc.NGetf(entry.singular, entry.plural, count, count)
-- 
2.43.0


From 1d12b421e329032968b767c9a01a89c8ed374729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 41/58] fix: NaturalDay counts days across clock changes

---
 humanize/date.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/humanize/date.go b/humanize/date.go
index 7e9c550..3f075e4 100644
--- a/humanize/date.go
+++ b/humanize/date.go
@@ -54,9 +54,10 @@ func (h *Humanizer) NaturalDay(i any) string {
 		return formatErrorMessage(i)
 	}
 
-	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, t.Location())
-	now := time.Now().In(value.Location())
-	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, now.Location())
+	// Dates are compared in UTC, where every day has 24 hours
+	value := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
+	now := time.Now().In(t.Location())
+	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
 
 	delta := value.Sub(today).Hours() / 24
 	switch delta {
-- 
2.43.0


From a0e8f4789af0cd7c3562f5d5dcf54b745e6a5a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 42/58] fix: the languages of a humanize collection keep the
 order in which they were passed

---
 humanize/humanizer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index 07ec25f..a0fef1c 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -127,11 +127,14 @@ func New(opts ...Option) (*Collection, error) {
 		locales: make(map[language.Tag]*FormatData, len(o.locales)),
 	}
 	languages := make([]any, 0, len(loader.locales))
-	for tag, data := range loader.locales {
-		languages = append(languages, tag)
-		if data.Format != nil {
-			coll.locales[tag] = data.Format
+	for _, locale := range o.locales {
+		tag := locale.Lang
+		data := loader.locales[tag]
+		if _, ok := coll.locales[tag]; ok {
+			continue
 		}
+		languages = append(languages, tag)
+		coll.locales[tag] = data.Format
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
-- 
2.43.0


From 37672c6ed4ad052aab1e7d9224f4105b99082333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 43/58] fix: numbers without a value or beyond the range of
 int64 in Apnumber, Ordinal and FilesizeFormat

---
 humanize/helper.go  | 42 +++++++++++++++++++++++++++---------------
 humanize/numbers.go | 26 +++++++++++++++-----------
 2 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/humanize/helper.go b/humanize/helper.go
index 7f871bb..855a5ea 100644
--- a/humanize/helper.go
+++ b/humanize/helper.go
@@ -40,11 +40,11 @@ func (h *Humanizer) Language() language.Tag {
 }
 
 const (
-	kb = int64(1) << 10
-	mb = int64(1) << 20
-	gb = int64(1) << 30
-	tb = int64(1) << 40
-	pb = int64(1) << 50
+	kb = float64(1 << 10)
+	mb = float64(1 << 20)
+	gb = float64(1 << 30)
+	tb = float64(1 << 40)
+	pb = float64(1 << 50)
 )
 
 // FilesizeFormat format the value like a 'human-readable' file size (i.e. 13 KB, 4.1 MB, 102 bytes, etc.).
@@ -52,16 +52,16 @@ const (
 // Valid inputs are byte arrays or any numeric value.
 // For all other inputs, a string is returned with an error message in fmt style.
 func (h *Humanizer) FilesizeFormat(v any) string {
-	var count int64
+	var count float64
 	switch val := v.(type) {
 	case []byte:
-		count = int64(len(val))
+		count = float64(len(val))
 	default:
 		value, err := cast.ToNumber(v)
-		if err != nil {
+		if err != nil || !isFinite(value) {
 			return formatErrorMessage(v)
 		}
-		count = int64(value)
+		count = math.Trunc(value)
 	}
 
 	isNegative := count < 0
@@ -71,21 +71,21 @@ func (h *Humanizer) FilesizeFormat(v any) string {
 
 	var result string
 	if count < kb {
-		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", count, count)
+		result = h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(count), int64(count))
 	} else if count < mb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(kb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/kb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s KB", formatted)
 	} else if count < gb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(mb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/mb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s MB", formatted)
 	} else if count < tb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(gb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/gb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s GB", formatted)
 	} else if count < pb {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(tb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/tb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s TB", formatted)
 	} else {
-		formatted := h.loc.Print("%v", number.Decimal(float64(count)/float64(pb), number.MaxFractionDigits(1)))
+		formatted := h.loc.Print("%v", number.Decimal(count/pb, number.MaxFractionDigits(1)))
 		result = h.loc.Getf("%s PB", formatted)
 	}
 
@@ -104,6 +104,18 @@ func toFixed(num float64, precision int) float64 {
 	return math.Round(num*output) / output
 }
 
+func isFinite(value float64) bool {
+	return !math.IsNaN(value) && !math.IsInf(value, 0)
+}
+
+// wholeNumber prepares a number without fraction digits for output. Numbers outside the range of int64 keep their value.
+func wholeNumber(value float64) any {
+	if math.Abs(value) < 1<<63 {
+		return int64(value)
+	}
+	return number.Decimal(value, number.MaxFractionDigits(0))
+}
+
 func formatErrorMessage(i any) string {
 	t := reflect.TypeOf(i)
 	if t == nil {
diff --git a/humanize/numbers.go b/humanize/numbers.go
index 0e58c0d..2977d1a 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -35,16 +35,16 @@ var apnumbers = []string{
 // - 10 becomes 10.
 func (h *Humanizer) Apnumber(val any) string {
 	fl, err := cast.ToNumber(val)
-	if err != nil {
+	if err != nil || !isFinite(fl) {
 		return formatErrorMessage(val)
 	}
 
-	num := int64(fl)
+	num := math.Trunc(fl)
 	if num <= 0 || num >= 10 {
-		return h.loc.Print("%d", num)
+		return h.loc.Print("%v", wholeNumber(num))
 	}
 
-	return h.loc.Get(apnumbers[num-1])
+	return h.loc.Get(apnumbers[int(num)-1])
 }
 
 // A tuple of standard large number to their converters.
@@ -146,20 +146,24 @@ var ordinalTemplates = []struct {
 // Valid inputs are all values that can be interpreted as a number.
 func (h *Humanizer) Ordinal(i any) string {
 	floatValue, err := cast.ToNumber(i)
-	if err != nil {
+	if err != nil || !isFinite(floatValue) {
 		return formatErrorMessage(i)
 	}
 
+	if floatValue <= -1 {
+		return strconv.FormatFloat(math.Trunc(floatValue), 'f', 0, 64)
+	}
 	if floatValue < 0 {
-		return strconv.FormatInt(int64(floatValue), 10)
+		return "0"
 	}
 
-	value := int64(floatValue)
-	switch value % 100 {
+	value := math.Trunc(floatValue)
+	lastDigits := int(math.Mod(value, 100))
+	switch lastDigits {
 	case 11, 12, 13:
-		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
+		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", wholeNumber(value))
 	}
 
-	template := ordinalTemplates[value%10]
-	return h.loc.PGetf(template.Context, template.ID, value)
+	template := ordinalTemplates[lastDigits%10]
+	return h.loc.PGetf(template.Context, template.ID, wholeNumber(value))
 }
-- 
2.43.0


From 211431727b95bc1e2563477983fb4606078dc433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 44/58] fix: Intword counts numbers from 10^36 up to a googol
 in decillions

---
 humanize/numbers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/humanize/numbers.go b/humanize/numbers.go
index 2977d1a..d5672a3 100644
--- a/humanize/numbers.go
+++ b/humanize/numbers.go
@@ -86,9 +86,13 @@ func (h *Humanizer) Intword(i any) string {
 		return h.Intcomma(value)
 	}
 
-	for _, converter := range intwordConverters {
+	for idx, converter := range intwordConverters {
 		largeNumber := math.Pow10(converter.exponent)
-		if absValue < (largeNumber * float64(1000)) {
+		nextNumber := largeNumber * float64(1000)
+		if idx+1 < len(intwordConverters) {
+			nextNumber = math.Pow10(intwordConverters[idx+1].exponent)
+		}
+		if absValue < nextNumber {
 			newValue := value / largeNumber
 			roundedValue := int64(math.Ceil(newValue-1)) + 1
 			if roundedValue < 0 {
-- 
2.43.0


From 05c2556b9d39ad5d90c18fc098756610482e20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 45/58] fix: a humanize collection keeps its own formats
 instead of sharing and changing those of its caller

---
 humanize/humanizer.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/humanize/humanizer.go b/humanize/humanizer.go
index a0fef1c..418b057 100644
--- a/humanize/humanizer.go
+++ b/humanize/humanizer.go
@@ -114,13 +114,6 @@ func New(opts ...Option) (*Collection, error) {
 		}
 	}
 
-	for _, d := range o.locales {
-		if d.Format == nil {
-			d.Format = fallbackFormat
-		}
-		d.Format.setDefaults()
-	}
-
 	loader := newLoader(o.locales)
 
 	coll := &Collection{
@@ -134,7 +127,7 @@ func New(opts ...Option) (*Collection, error) {
 			continue
 		}
 		languages = append(languages, tag)
-		coll.locales[tag] = data.Format
+		coll.locales[tag] = data.Format.withDefaults()
 	}
 
 	o.bundleOptions = append(o.bundleOptions,
@@ -176,6 +169,17 @@ func (p *Collection) CreateHumanizer(lang ...any) *Humanizer {
 	return &Humanizer{loc: loc, format: fallbackFormat}
 }
 
+// withDefaults returns a copy in which the missing formats are taken from the fallback.
+func (f *FormatData) withDefaults() *FormatData {
+	if f == nil {
+		return fallbackFormat
+	}
+
+	format := *f
+	format.setDefaults()
+	return &format
+}
+
 func (f *FormatData) setDefaults() {
 	if f.DateFormat == "" {
 		f.DateFormat = fallbackFormat.DateFormat
-- 
2.43.0


From db6c52a5bc3eb63706fd93c6f53dc4e19017c7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 46/58] fix: the PO parser takes time and memory in proportion
 to the lines of a string or comment

---
 catalog/po/parser.go | 55 ++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 4122a0c..94bc7c9 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -164,7 +164,6 @@ loop:
 	// started is set as soon as the message has a keyword, and hasID if it has an msgid.
 	// singular is set if the message has a msgstr without an index.
 	var started, hasID, singular bool
-	var lastIdx int // index of the last msgstr[x]
 	for {
 		tok, lit := p.scan()
 		switch tok {
@@ -200,9 +199,7 @@ loop:
 				return nil, p.buildPosError()
 			}
 			started = true
-			msg.Context = DecodePoString(lit)
-		case msgContextLine:
-			msg.Context += DecodePoString(lit)
+			msg.Context = p.parseString(lit, msgContextLine)
 		case msgID:
 			if len(msg.Str) > 0 {
 				// Message completed, the id belongs to the next message
@@ -213,24 +210,18 @@ loop:
 				return nil, p.buildPosError()
 			}
 			started, hasID = true, true
-			msg.ID = DecodePoString(lit)
-		case msgIDLine:
-			msg.ID += DecodePoString(lit)
+			msg.ID = p.parseString(lit, msgIDLine)
 		case msgIDPlural:
 			if !hasID || msg.IDPlural != "" || len(msg.Str) > 0 {
 				return nil, p.buildPosError()
 			}
-			msg.IDPlural = DecodePoString(lit)
-		case msgIDPluralLine:
-			msg.IDPlural += DecodePoString(lit)
+			msg.IDPlural = p.parseString(lit, msgIDPluralLine)
 		case msgStr:
 			if !hasID || len(msg.Str) > 0 {
 				return nil, p.buildPosError()
 			}
 			singular = true
-			msg.Str[0] = DecodePoString(lit)
-		case msgStrLine:
-			msg.Str[0] += DecodePoString(lit)
+			msg.Str[0] = p.parseString(lit, msgStrLine)
 		case msgStrPlural:
 			left := strings.Index(lit, "[")
 			right := strings.Index(lit, "]")
@@ -243,18 +234,26 @@ loop:
 			if _, ok := msg.Str[idx]; !hasID || singular || ok {
 				return nil, p.buildPosError()
 			}
-			lastIdx = idx
-			msg.Str[idx] = DecodePoString(lit)
-		case msgStrPluralLine:
-			msg.Str[lastIdx] += DecodePoString(lit)
+			msg.Str[idx] = p.parseString(lit, msgStrPluralLine)
 		default:
 			return nil, p.buildPosError()
 		}
 	}
 }
 
+// parseString returns the decoded string of a keyword, including the lines with which it is continued.
+func (p *Parser) parseString(lit string, line token) string {
+	var text strings.Builder
+	for tok := line; tok == line; tok, lit = p.scan() {
+		text.WriteString(DecodePoString(lit))
+	}
+	p.unscan()
+	return text.String()
+}
+
 func (p *Parser) parseComment() (*Comment, error) {
 	comment := NewComment()
+	var translator, extracted, prevMsgContext, prevMsgID strings.Builder
 	for {
 		tok, line := p.scan()
 
@@ -265,16 +264,16 @@ func (p *Parser) parseComment() (*Comment, error) {
 			return nil, p.buildPosError()
 		case commentTranslator:
 			line = strings.TrimSpace(line[1:]) // #
-			if comment.Translator != "" {
-				comment.Translator += "\n"
+			if translator.Len() > 0 {
+				translator.WriteByte('\n')
 			}
-			comment.Translator += line
+			translator.WriteString(line)
 		case commentExtracted:
 			line = strings.TrimSpace(line[2:]) // #.
-			if comment.Extracted != "" {
-				comment.Extracted += "\n"
+			if extracted.Len() > 0 {
+				extracted.WriteByte('\n')
 			}
-			comment.Extracted += line
+			extracted.WriteString(line)
 		case commentFlags:
 			line = strings.TrimSpace(line[2:]) // #,
 			rawFlags := strings.FieldsFunc(line, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })
@@ -284,19 +283,19 @@ func (p *Parser) parseComment() (*Comment, error) {
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgContext += DecodePoString(line)
+			prevMsgContext.WriteString(DecodePoString(line))
 		case commentPrevContextLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgContext += DecodePoString(line)
+			prevMsgContext.WriteString(DecodePoString(line))
 		case commentPrevMsgID:
 			line = strings.TrimSpace(line[8:]) // #| msgid
 			if line == "" {
 				continue
 			}
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
-			comment.PrevMsgID += DecodePoString(line)
+			prevMsgID.WriteString(DecodePoString(line))
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
@@ -312,6 +311,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 			}
 		default:
 			p.unscan()
+			comment.Translator, comment.Extracted = translator.String(), extracted.String()
+			comment.PrevMsgContext, comment.PrevMsgID = prevMsgContext.String(), prevMsgID.String()
 			return comment, nil
 		}
 	}
-- 
2.43.0


From f7699cb7be8ef48403f5dc399be408d04851a691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 47/58] fix: a PO comment with the previous plural does not
 continue the previous id

---
 catalog/po/parser.go  |  6 ++++--
 catalog/po/scanner.go | 11 ++++++++---
 catalog/po/token.go   |  1 +
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/catalog/po/parser.go b/catalog/po/parser.go
index 94bc7c9..4497e58 100644
--- a/catalog/po/parser.go
+++ b/catalog/po/parser.go
@@ -147,7 +147,7 @@ loop:
 		tok, _ := p.scan()
 		switch tok {
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentPrevMsgIDPlural:
 			p.unscan()
 			comment, err := p.parseComment()
 			if err != nil {
@@ -182,7 +182,7 @@ loop:
 			// Message completed
 			return msg, nil
 		case commentTranslator, commentExtracted, commentReference, commentFlags,
-			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine:
+			commentPrevContext, commentPrevMsgID, commentPrevMsgIDLine, commentPrevContextLine, commentPrevMsgIDPlural:
 			if len(msg.Str) == 0 {
 				return nil, p.buildPosError()
 			}
@@ -296,6 +296,8 @@ func (p *Parser) parseComment() (*Comment, error) {
 		case commentPrevMsgIDLine:
 			line = strings.TrimSpace(line[2:]) // #| "..."
 			prevMsgID.WriteString(DecodePoString(line))
+		case commentPrevMsgIDPlural:
+			// The comment has no field for the previous plural
 		case commentReference:
 			line = strings.TrimSpace(line[2:]) // #:
 
diff --git a/catalog/po/scanner.go b/catalog/po/scanner.go
index ce1a46a..1996e6d 100644
--- a/catalog/po/scanner.go
+++ b/catalog/po/scanner.go
@@ -9,9 +9,10 @@ import (
 )
 
 var (
-	rePrevMsgContextComments = regexp.MustCompile(`^#\|\s+msgctxt`)  // #| msgctxt
-	rePrevMsgIDComments      = regexp.MustCompile(`^#\|\s+msgid`)    // #| msgid
-	rePrevStringLineComments = regexp.MustCompile(`^#\|\s+".*"\s*$`) // #| "message"
+	rePrevMsgContextComments  = regexp.MustCompile(`^#\|\s+msgctxt`)      // #| msgctxt
+	rePrevMsgIDPluralComments = regexp.MustCompile(`^#\|\s+msgid_plural`) // #| msgid_plural
+	rePrevMsgIDComments       = regexp.MustCompile(`^#\|\s+msgid`)        // #| msgid
+	rePrevStringLineComments  = regexp.MustCompile(`^#\|\s+".*"\s*$`)     // #| "message"
 
 	reMsgContext   = regexp.MustCompile(`^msgctxt\s+".*"\s*$`)           // msgctxt
 	reMsgID        = regexp.MustCompile(`^msgid\s+".*"\s*$`)             // msgid
@@ -170,6 +171,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 		// #| "..."
 		if rePrevMsgContextComments.MatchString(line) {
 			return commentPrevContext, line
+		} else if rePrevMsgIDPluralComments.MatchString(line) {
+			return commentPrevMsgIDPlural, line
 		} else if rePrevMsgIDComments.MatchString(line) {
 			return commentPrevMsgID, line
 		} else if rePrevStringLineComments.MatchString(line) {
@@ -178,6 +181,8 @@ func (s *scanner) scanComment(line string) (token, string) {
 				return commentPrevContextLine, line
 			case commentPrevMsgID, commentPrevMsgIDLine:
 				return commentPrevMsgIDLine, line
+			case commentPrevMsgIDPlural:
+				return commentPrevMsgIDPlural, line
 			default:
 				return commentPrevUnknown, line
 			}
diff --git a/catalog/po/token.go b/catalog/po/token.go
index f655731..106d039 100644
--- a/catalog/po/token.go
+++ b/catalog/po/token.go
@@ -14,6 +14,7 @@ const (
 	commentPrevContextLine              // "#| \"prev-ctx\""
 	commentPrevMsgID                    // "#| msgid"
 	commentPrevMsgIDLine                // "#| \"prev-msg\""
+	commentPrevMsgIDPlural              // "#| msgid_plural" and its further lines
 	commentPrevUnknown                  // "#| \"unknown\""
 	msgContext                          // "msgctxt"
 	msgContextLine                      // "\"more context\""
-- 
2.43.0


From 16b7b67395c4426e847e53cf1edc90d1bd090c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 48/58] fix: date format letter I follows the time zone's
 daylight saving time

---
 humanize/dateformat.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/humanize/dateformat.go b/humanize/dateformat.go
index 19c76b0..d7e1656 100644
--- a/humanize/dateformat.go
+++ b/humanize/dateformat.go
@@ -262,18 +262,8 @@ func (tf *timeFormatter) F() string {
 
 // I - '1' if daylight saving time, '0' otherwise.
 func (tf *timeFormatter) I() string {
-	_, timeOffset := tf.data.Zone()
-	_, winterOffset := time.Date(tf.data.Year(), 1, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-	_, summerOffset := time.Date(tf.data.Year(), 7, 1, 0, 0, 0, 0, tf.data.Location()).Zone()
-
-	if winterOffset > summerOffset {
-		winterOffset, summerOffset = summerOffset, winterOffset
-	}
-
-	if winterOffset != summerOffset { // the location has daylight saving
-		if timeOffset != winterOffset {
-			return "1"
-		}
+	if tf.data.IsDST() {
+		return "1"
 	}
 	return "0"
 }
-- 
2.43.0


From 10763772fee1221c8ecca0caf0b5ee3e977c3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 49/58] fix: the system file system is the root directory
 instead of one in which nothing can be opened

---
 loader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loader.go b/loader.go
index 9aeb60d..26bb255 100644
--- a/loader.go
+++ b/loader.go
@@ -188,8 +188,8 @@ func WithPath(path string) FsOption {
 // WithSystemFs stores the root path as filesystem.
 // Lets the creation of the FilesystemLoader fail, if a filesystem was already deposited.
 //
-// Shorthand for WithPath("").
-func WithSystemFs() FsOption { return WithPath("") }
+// Shorthand for WithPath("/").
+func WithSystemFs() FsOption { return WithPath("/") }
 
 // WithResolver stores the resolver of a FilesystemLoader.
 // Lets the creation of the FilesystemLoader fail, if a Resolver was already deposited.
-- 
2.43.0


From cfd78b54b7d6a82e94f74e55bb0e11e1d0692f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 50/58] fix: the text of a plural formula keeps the brackets
 that it needs

CompileToString wrote "n % (n % 3)" as "n % n % 3" and "(n == 1) == 0" as "n == 1 == 0".
---
 catalog/poplural/ast/compile.go | 51 ++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/catalog/poplural/ast/compile.go b/catalog/poplural/ast/compile.go
index d6aacce..bb456bf 100644
--- a/catalog/poplural/ast/compile.go
+++ b/catalog/poplural/ast/compile.go
@@ -21,7 +21,7 @@ func compileNode(node Node) string {
 		then := compileNode(v.T)
 		other := compileNode(v.F)
 
-		if len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
+		if v.Cond.Type() == Question || len(cond) > 1 && (!strings.HasPrefix(cond, "(") || !strings.HasSuffix(cond, ")")) {
 			cond = "(" + cond + ")"
 		}
 		if len(then) > 1 {
@@ -33,26 +33,57 @@ func compileNode(node Node) string {
 
 		return fmt.Sprintf("%s ? %s : %s", cond, then, other)
 	case *BinaryExpr:
+		left, right := compileOperand(v.X, v.Type()), compileOperand(v.Y, v.Type())
 		switch v.Type() {
 		case LogicalAnd:
-			return compileNode(v.X) + " && " + compileNode(v.Y)
+			return left + " && " + right
 		case LogicalOr:
-			return fmt.Sprintf("(%s || %s)", compileNode(v.X), compileNode(v.Y))
+			return fmt.Sprintf("(%s || %s)", left, right)
 		case Equal:
-			return compileNode(v.X) + " == " + compileNode(v.Y)
+			return left + " == " + right
 		case NotEqual:
-			return compileNode(v.X) + " != " + compileNode(v.Y)
+			return left + " != " + right
 		case Greater:
-			return compileNode(v.X) + " > " + compileNode(v.Y)
+			return left + " > " + right
 		case GreaterOrEqual:
-			return compileNode(v.X) + " >= " + compileNode(v.Y)
+			return left + " >= " + right
 		case Less:
-			return compileNode(v.X) + " < " + compileNode(v.Y)
+			return left + " < " + right
 		case LessOrEqual:
-			return compileNode(v.X) + " <= " + compileNode(v.Y)
+			return left + " <= " + right
 		case Reminder:
-			return compileNode(v.X) + " % " + compileNode(v.Y)
+			return left + " % " + right
 		}
 	}
 	return ""
 }
+
+// compileOperand compiles an operand of an operator and adds brackets if it would not stay together without them.
+func compileOperand(node Node, operator Token) string {
+	text := compileNode(node)
+	if node.Type() == Question {
+		return "(" + text + ")"
+	}
+
+	if _, ok := node.(*BinaryExpr); ok && node.Type() != LogicalOr { // The logical or has its own brackets
+		if precedence(node.Type()) < precedence(operator) || node.Type() != LogicalAnd && precedence(node.Type()) == precedence(operator) {
+			return "(" + text + ")"
+		}
+	}
+	return text
+}
+
+func precedence(operator Token) int {
+	switch operator {
+	case LogicalOr:
+		return 1
+	case LogicalAnd:
+		return 2
+	case Equal, NotEqual:
+		return 3
+	case Greater, GreaterOrEqual, Less, LessOrEqual:
+		return 4
+	default:
+		return 5
+	}
+}
-- 
2.43.0


From 2eb14ce2163ea174fc9d15f9df90b28cd35bca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 51/58] fix: the Lithuanian language pack is Lithuanian

The package was a copy of the Latvian one: a humanizer for lt was English, one for lv was in Lithuanian.
---
 humanize/locale/lt/locale.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/humanize/locale/lt/locale.go b/humanize/locale/lt/locale.go
index 6dff2c2..553f380 100644
--- a/humanize/locale/lt/locale.go
+++ b/humanize/locale/lt/locale.go
@@ -1,4 +1,4 @@
-package lv
+package lt
 
 import (
 	"embed"
@@ -13,16 +13,16 @@ var fsys embed.FS
 
 func New() *humanize.LocaleData {
 	return &humanize.LocaleData{
-		Lang: language.MustParse("lv"),
+		Lang: language.MustParse("lt"),
 		Fs:   fsys,
 		Format: &humanize.FormatData{
-			DateFormat:          `Y. \g\a\d\a j. F`,
+			DateFormat:          `Y \m. E j \d.`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `Y. \g\a\d\a j. F, H:i`,
-			YearMonthFormat:     `Y. \g. F`,
-			MonthDayFormat:      "j. F",
-			ShortDateFormat:     `j.m.Y`,
-			ShortDatetimeFormat: "j.m.Y H:i",
+			DateTimeFormat:      `Y \m. E j \d., H:i`,
+			YearMonthFormat:     `Y \m. F`,
+			MonthDayFormat:      `E j \d.`,
+			ShortDateFormat:     "Y-m-d",
+			ShortDatetimeFormat: "Y-m-d H:i",
 			FirstDayOfWeek:      1,
 		},
 	}
-- 
2.43.0


From 5f8de039d0e052ef9b2f65a4bc34ac317dfcb15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 52/58] fix: texts of the be, mr and sq language packs show
 their number
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

"%(value).s" was a formatting error, the ordinals "{वा}" and "-të" had no number.
---
 humanize/locale/be/django.po |  2 +-
 humanize/locale/mr/django.po |  2 +-
 humanize/locale/sq/django.po | 20 ++++++++++----------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/humanize/locale/be/django.po b/humanize/locale/be/django.po
index dad3962..8f74dc0 100644
--- a/humanize/locale/be/django.po
+++ b/humanize/locale/be/django.po
@@ -27,7 +27,7 @@ msgstr[3] "%[1]d байтаў"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
-msgstr[0] "%(value).s мільярд"
+msgstr[0] "%[1]s мільярд"
 msgstr[1] "%[1]s мільярды"
 msgstr[2] "%[1]s мільярдаў"
 msgstr[3] "%[1]s мільярдаў"
diff --git a/humanize/locale/mr/django.po b/humanize/locale/mr/django.po
index aa9380e..0af4dd8 100644
--- a/humanize/locale/mr/django.po
+++ b/humanize/locale/mr/django.po
@@ -839,4 +839,4 @@ msgstr "%vवा"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "{वा}"
+msgstr "%vवा"
diff --git a/humanize/locale/sq/django.po b/humanize/locale/sq/django.po
index 5902280..34252f3 100644
--- a/humanize/locale/sq/django.po
+++ b/humanize/locale/sq/django.po
@@ -801,7 +801,7 @@ msgstr[1] "%[1]v vjet"
 
 msgctxt "ordinal 0"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 1"
 msgid "%vst"
@@ -809,36 +809,36 @@ msgstr ""
 
 msgctxt "ordinal 11, 12, 13"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 2"
 msgid "%vnd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 3"
 msgid "%vrd"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 4"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 5"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 6"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 7"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 8"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
 
 msgctxt "ordinal 9"
 msgid "%vth"
-msgstr "-të"
+msgstr "%v-të"
-- 
2.43.0


From a4160b52653ec589d1ce73938ef16da34e6f525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 53/58] fix: 21 minutes ago is not a minute ago in the sr-Latn
 language pack

The first plural form is for 1, 21, 31 ... and had no number.
---
 humanize/locale/srLatn/django.po | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/humanize/locale/srLatn/django.po b/humanize/locale/srLatn/django.po
index 095b6a9..719fa7b 100644
--- a/humanize/locale/srLatn/django.po
+++ b/humanize/locale/srLatn/django.po
@@ -535,25 +535,25 @@ msgstr "velški"
 
 msgid "a minute ago"
 msgid_plural "%[1]v minutes ago"
-msgstr[0] "pre minut"
+msgstr[0] "pre %[1]v minut"
 msgstr[1] "pre %[1]v minuta"
 msgstr[2] "pre %[1]v minuta"
 
 msgid "a minute from now"
 msgid_plural "%[1]v minutes from now"
-msgstr[0] "minut od sad"
+msgstr[0] "%[1]v minut od sad"
 msgstr[1] "%[1]v minuta od sada"
 msgstr[2] "%[1]v minuta od sada"
 
 msgid "a second ago"
 msgid_plural "%[1]v seconds ago"
-msgstr[0] "pre sekund"
+msgstr[0] "pre %[1]v sekund"
 msgstr[1] "pre %[1]v sekunde"
 msgstr[2] "pre %[1]v sekundi"
 
 msgid "a second from now"
 msgid_plural "%[1]v seconds from now"
-msgstr[0] "sekund od sad"
+msgstr[0] "%[1]v sekund od sad"
 msgstr[1] "%[1]v sekunde od sada"
 msgstr[2] "%[1]v sekundi od sada"
 
@@ -562,13 +562,13 @@ msgstr "pre p."
 
 msgid "an hour ago"
 msgid_plural "%[1]v hours ago"
-msgstr[0] "pre sat"
+msgstr[0] "pre %[1]v sat"
 msgstr[1] "pre %[1]v sata"
 msgstr[2] "pre %[1]v sati"
 
 msgid "an hour from now"
 msgid_plural "%[1]v hours from now"
-msgstr[0] "sat od sad"
+msgstr[0] "%[1]v sat od sad"
 msgstr[1] "%[1]v sata od sada"
 msgstr[2] "%[1]v sati od sada"
 
-- 
2.43.0


From 9356e9bfcc80f5c7b8bd03f20856c965083a944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 54/58] fix: April is not March in the hy language pack

---
 humanize/locale/hy/django.po | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/hy/django.po b/humanize/locale/hy/django.po
index 640db74..0e4c475 100644
--- a/humanize/locale/hy/django.po
+++ b/humanize/locale/hy/django.po
@@ -576,7 +576,7 @@ msgstr "երեկ"
 
 msgctxt "abbrev. month"
 msgid "April"
-msgstr "Մարտ"
+msgstr "Ապրիլ"
 
 msgctxt "abbrev. month"
 msgid "Aug."
-- 
2.43.0


From 780fd18abb2711a6617381f276aa835dff4f81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 55/58] fix: the date and time format of the vi language pack
 has hours

---
 humanize/locale/vi/locale.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/locale/vi/locale.go b/humanize/locale/vi/locale.go
index 36ccfc3..2af0fe1 100644
--- a/humanize/locale/vi/locale.go
+++ b/humanize/locale/vi/locale.go
@@ -18,7 +18,7 @@ func New() *humanize.LocaleData {
 		Format: &humanize.FormatData{
 			DateFormat:          `\N\gà\y d \t\há\n\g n \nă\m Y`,
 			TimeFormat:          "H:i",
-			DateTimeFormat:      `:i \N\gà\y d \t\há\n\g n \nă\m Y`,
+			DateTimeFormat:      `H:i \N\gà\y d \t\há\n\g n \nă\m Y`,
 			YearMonthFormat:     "F Y",
 			MonthDayFormat:      "j F",
 			ShortDateFormat:     "d-m-Y",
-- 
2.43.0


From ce26bb0dda475d37f0657b15f554d8bfe2556729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 56/58] fix: texts of the he language pack have the fourth
 plural form

The form for most numbers was missing, so that these texts were English.
---
 humanize/locale/he/django.po | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/humanize/locale/he/django.po b/humanize/locale/he/django.po
index 3e9dd05..95df586 100644
--- a/humanize/locale/he/django.po
+++ b/humanize/locale/he/django.po
@@ -28,6 +28,7 @@ msgid_plural "%[1]d bytes"
 msgstr[0] "בית %[1]d "
 msgstr[1] "%[1]d בתים"
 msgstr[2] "%[1]d בתים"
+msgstr[3] "%[1]d בתים"
 
 msgid "%[1]s billion"
 msgid_plural "%[1]s billion"
@@ -114,6 +115,7 @@ msgid_plural "%[1]v days"
 msgstr[0] "יום"
 msgstr[1] "יומיים"
 msgstr[2] "%[1]v ימים"
+msgstr[3] "%[1]v ימים"
 
 msgid "%[1]v from now"
 msgstr "בעוד %[1]v"
@@ -123,30 +125,35 @@ msgid_plural "%[1]v hours"
 msgstr[0] "שעה"
 msgstr[1] "שעתיים"
 msgstr[2] "%[1]v שעות"
+msgstr[3] "%[1]v שעות"
 
 msgid "%[1]v minute"
 msgid_plural "%[1]v minutes"
 msgstr[0] "דקה"
 msgstr[1] "%[1]v דקות"
 msgstr[2] "%[1]v דקות"
+msgstr[3] "%[1]v דקות"
 
 msgid "%[1]v month"
 msgid_plural "%[1]v months"
 msgstr[0] "חודש"
 msgstr[1] "חודשיים"
 msgstr[2] "%[1]v חודשים"
+msgstr[3] "%[1]v חודשים"
 
 msgid "%[1]v week"
 msgid_plural "%[1]v weeks"
 msgstr[0] "שבוע"
 msgstr[1] "שבועיים"
 msgstr[2] "%[1]v שבועות"
+msgstr[3] "%[1]v שבועות"
 
 msgid "%[1]v year"
 msgid_plural "%[1]v years"
 msgstr[0] "שנה"
 msgstr[1] "שנתיים"
 msgstr[2] "%[1]v שנים"
+msgstr[3] "%[1]v שנים"
 
 msgid "%s GB"
 msgstr "%s ג\"ב"
-- 
2.43.0


From 3ad7fe212ab24217962e897b519be476446012f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 57/58] =?UTF-8?q?fix:=20the=20name=20of=20Norwegian=20Bokm?=
 =?UTF-8?q?=C3=A5l=20is=20the=20one=20that=20the=20language=20packs=20tran?=
 =?UTF-8?q?slate?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 humanize/helper_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/humanize/helper_table.go b/humanize/helper_table.go
index 794bffc..e309163 100644
--- a/humanize/helper_table.go
+++ b/humanize/helper_table.go
@@ -339,7 +339,7 @@ var LocaleInfos = map[string]LocaleInfo{
 	},
 	"nb": {
 		Code:      "nb",
-		Name:      "Norwegian Bokmal",
+		Name:      "Norwegian Bokmål",
 		NameLocal: "norsk (bokmål)",
 	},
 	"ne": {
-- 
2.43.0


From d4494eea23399f14638061633d701cebdaf0a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:16 +0000
Subject: [PATCH 58/58] fix: a.m. and p.m. differ in the hi language pack
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Both were "बजे" (o'clock), so that every time in the format of the pack was written for two times of the day.
---
 humanize/locale/hi/django.po | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/humanize/locale/hi/django.po b/humanize/locale/hi/django.po
index c94524c..5ce72c6 100644
--- a/humanize/locale/hi/django.po
+++ b/humanize/locale/hi/django.po
@@ -130,7 +130,7 @@ msgid ", "
 msgstr ", "
 
 msgid "AM"
-msgstr "बजे"
+msgstr "पूर्वाह्न"
 
 msgid "Afrikaans"
 msgstr "अफ़्रीकांस"
@@ -376,7 +376,7 @@ msgid "Ossetic"
 msgstr "ओस्सेटिक"
 
 msgid "PM"
-msgstr "बजे"
+msgstr "अपराह्न"
 
 msgid "Persian"
 msgstr "पारसी"
@@ -525,7 +525,7 @@ msgstr[0] ""
 msgstr[1] ""
 
 msgid "a.m."
-msgstr "बजे"
+msgstr "पूर्वाह्न"
 
 msgid "an hour ago"
 msgid_plural "%[1]v hours ago"
@@ -595,7 +595,7 @@ msgid "one"
 msgstr "एक"
 
 msgid "p.m."
-msgstr "बजे"
+msgstr "अपराह्न"
 
 msgid "sep"
 msgstr "सित"
-- 
2.43.0

