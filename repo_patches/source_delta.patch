From bda3328a4808a131df254e62da051188eaa2c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:51 +0000
Subject: [PATCH 01/23] fix: reject AS numbers with a prefix other than AS

TrimLeft removes any run of the letters a and s, so "SA1" or "ASAS1" were
looked up as AS1.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From f4cf3df9cc51d6ea6dc11e47c256448d1e0cafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:12 +0000
Subject: [PATCH 02/23] fix: support ~ service tags as documented

Lookup documents that the older form of service tags (12345~VRSN) is still
supported, but only looked for '-'.
---
 bootstrap/service_provider_registry.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bootstrap/service_provider_registry.go b/bootstrap/service_provider_registry.go
index 1bccfd0..61423f1 100644
--- a/bootstrap/service_provider_registry.go
+++ b/bootstrap/service_provider_registry.go
@@ -48,8 +48,8 @@ func NewServiceProviderRegistry(json []byte) (*ServiceProviderRegistry, error) {
 func (s *ServiceProviderRegistry) Lookup(question *Question) (*Answer, error) {
 	input := question.Query
 
-	// Valid input looks like 12345-VRSN.
-	offset := strings.LastIndexByte(input, '-')
+	// Valid input looks like 12345-VRSN (or, deprecated, 12345~VRSN).
+	offset := strings.LastIndexAny(input, "-~")
 
 	if offset == -1 || offset == len(input)-1 {
 		return &Answer{
-- 
2.43.0


From c9b6c410cce3c8fde2f3b87df2d88d3c4ea10106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 03/23] fix: download a registry again once its cached file has
 expired

A long lived client kept answering from the registry in memory, however old,
because Lookup() only downloaded when it held no registry at all.
---
 bootstrap/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..73cc2d3 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -313,6 +313,10 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	var forceDownload bool
+	if state == cache.Expired {
+		forceDownload = true
+	}
+
 	if state == cache.ShouldReload {
 		if err := c.reloadFromCache(registry); err != nil {
 			forceDownload = true
-- 
2.43.0


From f16de4c81e668eed338ef8661ece927fe0b23c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:41 +0000
Subject: [PATCH 04/23] fix: leave the server URL unchanged and keep its query
 parameters in Request.URL

---
 request.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..08367f8 100644
--- a/request.go
+++ b/request.go
@@ -263,9 +263,11 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
+		tempURL.RawFragment = ""
 		tempURLString := tempURL.String()
 
 		if len(tempURLString) == 0 || tempURLString[len(tempURLString)-1] != '/' {
-- 
2.43.0


From c4f64451ed0126a53d5af524f2e15b1bd35dff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:42 +0000
Subject: [PATCH 05/23] fix: escape the query text of IP requests

---
 request.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 08367f8..cce2628 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,12 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// The prefix length of a network is a path segment of its own.
+		addr, prefixLen, isNet := strings.Cut(r.Query, "/")
+		path = fmt.Sprintf("ip/%s", escapePath(addr))
+		if isNet {
+			path += "/" + escapePath(prefixLen)
+		}
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From b011418fc8a935fcfd1c4dfb2dd0fd01b7301e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 06/23] fix: leave the port out of the domain query for a host
 URL

---
 request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request.go b/request.go
index cce2628..5991db1 100644
--- a/request.go
+++ b/request.go
@@ -477,7 +477,7 @@ func NewAutoRequest(queryText string) *Request {
 	if err == nil && (fullURL.Scheme == "http" || fullURL.Scheme == "https") {
 		// Parse "http://example.com/" as a domain query for convenience.
 		if fullURL.Path == "" || fullURL.Path == "/" {
-			return NewDomainRequest(fullURL.Host)
+			return NewDomainRequest(fullURL.Hostname())
 		}
 
 		return NewRawRequest(fullURL)
-- 
2.43.0


From d8f4ba28619b3e5289fcac96f02773e67094fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:43 +0000
Subject: [PATCH 07/23] fix: apply Request.Timeout

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 9c422af..73b16da 100644
--- a/client.go
+++ b/client.go
@@ -119,6 +119,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		c.Verbose = func(text string) {}
 	}
 
+	// Apply the request timeout.
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	c.Verbose("")
 	c.Verbose("client: Running...")
 	c.Verbose(fmt.Sprintf("client: Request type  : %s", req.Type))
-- 
2.43.0


From af59b2d3f27ec6869e2184089c2639a547e5863d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:44 +0000
Subject: [PATCH 08/23] fix: stop trying servers once a request is cancelled

---
 client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 73b16da..982585b 100644
--- a/client.go
+++ b/client.go
@@ -202,7 +202,7 @@ func (c *Client) Do(req *Request) (*Response, error) {
 			c.Verbose(fmt.Sprintf("client: error: %s",
 				httpResponse.Error))
 
-			if r.Context().Err() == context.DeadlineExceeded {
+			if r.Context().Err() != nil {
 				return resp, httpResponse.Error
 			}
 
-- 
2.43.0


From e6a927d144fd3db7115e086db63e558075906126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:45 +0000
Subject: [PATCH 09/23] fix: report the numeric code of RDAP error responses

---
 client_error.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..7d35a40 100644
--- a/client_error.go
+++ b/client_error.go
@@ -7,6 +7,7 @@ package rdap
 import (
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -46,10 +47,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	code := "unknown"
+	if e.ErrorCode != nil {
+		code = strconv.FormatUint(uint64(*e.ErrorCode), 10)
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
-		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+		Text: fmt.Sprintf("Server returned error code %s, title='%s', description='%s'",
+			code,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 59f4d45ee73e1c40230bdb5f80e91ab6cc6af403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:46 +0000
Subject: [PATCH 10/23] fix: reject negative and too large numbers for unsigned
 fields

---
 decoder.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..5d610c6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,13 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		if src <= -1 || src >= 1<<64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From af655712071e57cc1afe05d1d5b29f8091f72b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:47 +0000
Subject: [PATCH 11/23] fix: leave optional fields unset when their value
 cannot be decoded

---
 decoder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5d610c6..60a98c8 100644
--- a/decoder.go
+++ b/decoder.go
@@ -740,12 +740,17 @@ func (d *Decoder) decodePtr(keyName string, src any, dst reflect.Value, decodeDa
 			d.addDecodeNote(decodeData, keyName, vcardError.Error())
 		}
 	} else {
+		value := dst
 		if dst.IsNil() {
-			value := reflect.New(dst.Type().Elem())
-			dst.Set(value)
+			value = reflect.New(dst.Type().Elem())
 		}
 
-		success, err = d.decode(keyName, src, reflect.Indirect(dst), decodeData)
+		success, err = d.decode(keyName, src, reflect.Indirect(value), decodeData)
+
+		// A value which can't be decoded leaves |dst| unset.
+		if success && dst.IsNil() {
+			dst.Set(value)
+		}
 	}
 
 	return success, err
-- 
2.43.0


From 517b37626678fffe70b2ecf319b3cc671f10e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:48 +0000
Subject: [PATCH 12/23] fix: keep vCard address components apart when one holds
 several values

---
 vcard.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..3c0c2da 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,19 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	// Components can hold several values, so keep their positions by indexing
+	// the structured value (not the flattened one).
+	components, ok := adr.Value.([]any)
+	if !ok {
+		components = []any{adr.Value}
+	}
 
-	if index >= len(values) {
+	if index >= len(components) {
 		return ""
 	}
 
-	return values[index]
+	var values []string
+	adr.appendValueStrings(components[index], &values)
+
+	return strings.Join(values, " ")
 }
-- 
2.43.0


From 6ccfbaacd63be7964b22c529b892e623fea882dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:48 +0000
Subject: [PATCH 13/23] fix: omit notices and remarks when asked to

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From 739971d31630eeb986f06331c60fd24fbbc9f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:49 +0000
Subject: [PATCH 14/23] fix: print the conformance of IP networks

---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index b57c441..8900880 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From 28743be81eb1497df94cc7365d958486dbdd5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:50 +0000
Subject: [PATCH 15/23] fix: remove carriage returns from WHOIS style output

---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..0e9fbc2 100644
--- a/cli.go
+++ b/cli.go
@@ -564,7 +564,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 func safePrint(v string) string {
 	removeBadChars := func(r rune) rune {
 		switch r {
-		case '\000':
+		case '\000', '\r':
 			return -1
 		case '\n':
 			return ' '
-- 
2.43.0


From 737b2c63efc84288b083f29d0dcef12c863407a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:51 +0000
Subject: [PATCH 16/23] fix: print the body of the server which answered for
 --raw and --json

---
 cli.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 0e9fbc2..02ce41d 100644
--- a/cli.go
+++ b/cli.go
@@ -526,15 +526,18 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		printer.Print(resp.Object)
 	}
 
+	// The body of the last HTTP response, i.e. of the server which answered.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From 43d60a4b1cffbe7f4f1c3c9bea1c35a6eaa2058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 17/23] fix: do not expand @FILE command line arguments

---
 cli.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli.go b/cli.go
index 02ce41d..9b56d40 100644
--- a/cli.go
+++ b/cli.go
@@ -99,6 +99,12 @@ const (
 	experimentalBootstrapURL = "https://test.rdap.net/rdap"
 )
 
+func init() {
+	// Arguments of the form @FILE are query text. Never read more arguments from
+	// the file (which also applies to sandbox mode).
+	kingpin.EnableFileExpansion = false
+}
+
 // CLIOptions specifies options for the command line client.
 type CLIOptions struct {
 	// Sandbox mode disables the --cache-dir option, to prevent arbitrary writes to
-- 
2.43.0


From 1037e1f17191ae2abc9e967a76538a3aed30646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:22 +0000
Subject: [PATCH 18/23] fix: find the sandbox directory once, safely for
 concurrent use

---
 sandbox/file.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sandbox/file.go b/sandbox/file.go
index 0135ea1..bd1790b 100644
--- a/sandbox/file.go
+++ b/sandbox/file.go
@@ -10,9 +10,11 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"sync"
 )
 
-var sandboxPath string
+// sandboxPath returns the sandbox directory, found on first use.
+var sandboxPath = sync.OnceValue(findPackagePath)
 
 // LoadFile reads the named sandboxed file and returns its contents. It returns
 // an error if the file is not one of the recognised sandbox files.
@@ -23,11 +25,7 @@ func LoadFile(filename string) ([]byte, error) {
 
 	var body []byte
 
-	if len(sandboxPath) == 0 {
-		sandboxPath = findPackagePath()
-	}
-
-	body, err := os.ReadFile(path.Join(sandboxPath, filename))
+	body, err := os.ReadFile(path.Join(sandboxPath(), filename))
 	if err != nil {
 		log.Panic(err)
 	}
-- 
2.43.0


From 7eefc176a11a4a80e26686cbdedc72ab39b6c8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:33 +0000
Subject: [PATCH 19/23] fix: keep escaped slashes of a bootstrap base URL
 without trailing slash

---
 bootstrap/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 73cc2d3..507a55e 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -218,6 +218,11 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 
 	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
 		baseURL.Path += "/"
+
+		// Keep the escaped form (if any) in step.
+		if baseURL.RawPath != "" {
+			baseURL.RawPath += "/"
+		}
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From 19d377144f1c716a0fa87c778376546beef0f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:08 +0000
Subject: [PATCH 20/23] fix: match IPv4-mapped IPv6 addresses against the IPv6
 networks containing them

---
 bootstrap/net_registry.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/bootstrap/net_registry.go b/bootstrap/net_registry.go
index f01f393..8a9ae17 100644
--- a/bootstrap/net_registry.go
+++ b/bootstrap/net_registry.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"net"
+	"net/netip"
 	"net/url"
 	"sort"
 	"strings"
@@ -123,14 +124,14 @@ func (n *NetRegistry) Lookup(question *Question) (*Answer, error) {
 
 		index := sort.Search(len(nets), func(i int) bool {
 			net := nets[i].Net
-			return net.Contains(lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
+			return netContains(net, lookupNet.IP) || bytes.Compare(net.IP, lookupNet.IP) >= 0
 		})
 
-		if index == len(nets) || !nets[index].Net.Contains(lookupNet.IP) {
+		if index == len(nets) || !netContains(nets[index].Net, lookupNet.IP) {
 			continue
 		}
 
-		bestEntry = nets[index].Net.String()
+		bestEntry = netString(nets[index].Net)
 		bestMask = mask
 		bestURLs = nets[index].URLs
 	}
@@ -142,6 +143,23 @@ func (n *NetRegistry) Lookup(question *Question) (*Answer, error) {
 	}, nil
 }
 
+// netContains reports whether |network| contains |ip|. Both have the same length.
+//
+// Unlike net.IPNet.Contains(), IPv4-mapped IPv6 addresses are IPv6 addresses.
+func netContains(network *net.IPNet, ip net.IP) bool {
+	return bytes.Equal(ip.Mask(network.Mask), network.IP)
+}
+
+// netString returns |network| in CIDR format.
+//
+// Unlike net.IPNet.String(), IPv4-mapped IPv6 networks are IPv6 networks.
+func netString(network *net.IPNet) string {
+	addr, _ := netip.AddrFromSlice(network.IP)
+	size, _ := network.Mask.Size()
+
+	return netip.PrefixFrom(addr, size).String()
+}
+
 func numIPBytesForVersion(ipVersion int) int {
 	var length int
 
-- 
2.43.0


From 6c8c180062b9736e15eed6774bd4d7b803b6c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:20 +0000
Subject: [PATCH 21/23] fix: download a registry again when its cached file has
 disappeared

Lookup went on using the in-memory copy for ever, however old it became,
since the age of a registry is known only by its cached file.
---
 bootstrap/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 507a55e..65f0413 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -317,8 +317,10 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	state := c.Cache.State(c.filenameFor(registry))
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
+	// The age of a registry is known only by its cached file. Download it again if
+	// that has expired, or has disappeared.
 	var forceDownload bool
-	if state == cache.Expired {
+	if state == cache.Expired || state == cache.Absent {
 		forceDownload = true
 	}
 
-- 
2.43.0


From 9146addded90403da5c04fe02d01e335525b95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:46 +0000
Subject: [PATCH 22/23] fix: do not use an outdated registry after its cached
 file failed to reload

Loading an unusable cached file marked it as loaded. If the download that
followed failed too, later lookups answered from the in-memory copy,
however old.
---
 bootstrap/client.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 65f0413..f280f41 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -149,6 +149,10 @@ type Client struct {
 	Verbose func(text string)
 
 	registries map[RegistryType]Registry
+
+	// Registries whose cached file could not be used when it was last reloaded, so
+	// that the in-memory copy (if any) is out of date.
+	reloadFailed map[RegistryType]bool
 }
 
 // A Registry implements bootstrap lookups.
@@ -171,6 +175,10 @@ func (c *Client) init() {
 		c.registries = make(map[RegistryType]Registry)
 	}
 
+	if c.reloadFailed == nil {
+		c.reloadFailed = make(map[RegistryType]bool)
+	}
+
 	if c.BaseURL == nil {
 		c.BaseURL, _ = url.Parse(DefaultBaseURL)
 	}
@@ -203,6 +211,7 @@ func (c *Client) DownloadWithContext(ctx context.Context, registry RegistryType)
 	}
 
 	c.registries[registry] = s
+	c.reloadFailed[registry] = false
 
 	return nil
 }
@@ -271,10 +280,12 @@ func (c *Client) reloadFromCache(registry RegistryType) error {
 	var s Registry
 	s, err = newRegistry(registry, json)
 	if err != nil {
+		c.reloadFailed[registry] = true
 		return err
 	}
 
 	c.registries[registry] = s
+	c.reloadFailed[registry] = false
 
 	return nil
 }
@@ -318,9 +329,9 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 	c.Verbose(fmt.Sprintf("  bootstrap: Cache state: %s: %s", c.filenameFor(registry), state))
 
 	// The age of a registry is known only by its cached file. Download it again if
-	// that has expired, or has disappeared.
+	// that has expired, has disappeared, or turned out to be unusable.
 	var forceDownload bool
-	if state == cache.Expired || state == cache.Absent {
+	if state == cache.Expired || state == cache.Absent || c.reloadFailed[registry] {
 		forceDownload = true
 	}
 
-- 
2.43.0


From a6ec0992ecb5eafb97d099ae30b8912c03bac9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 23/23] fix: do not mix up bootstrap services whose URL hashes
 begin alike

---
 bootstrap/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index f280f41..56ba859 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -432,8 +432,8 @@ func (c *Client) ServiceProvider() *ServiceProviderRegistry {
 // For the official IANA bootstrap service, this is the exact filename, e.g.
 // dns.json.
 //
-// For custom bootstrap services, a 6 character hash of the bootstrap service
-// URL is prepended to the filename (e.g. 012def_dns.json), to prevent mixing
+// For custom bootstrap services, the SHA-256 hash of the bootstrap service URL
+// is prepended to the filename (e.g. 012def..._dns.json), to prevent mixing
 // them up.
 func (c *Client) filenameFor(r RegistryType) string {
 	filename := r.Filename()
@@ -443,7 +443,7 @@ func (c *Client) filenameFor(r RegistryType) string {
 		hasher.Write([]byte(c.BaseURL.String()))
 		sha256Hash := hex.EncodeToString(hasher.Sum(nil))
 
-		filename = sha256Hash[0:6] + "_" + filename
+		filename = sha256Hash + "_" + filename
 	}
 
 	return filename
-- 
2.43.0

