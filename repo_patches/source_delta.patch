From ccbf883885acf16374e736227e5c81bc418e318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:02 +0000
Subject: [PATCH 01/16] fix: report an error instead of panicking when
 definitions is a boolean

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From 65350c0874b6fe0bb41128a125d8ef4afc6baec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:03 +0000
Subject: [PATCH 02/16] fix: do not panic on numbers whose exponent is too
 large for exact arithmetic

---
 schema.go     | 16 ++++++++--------
 utils.go      |  2 +-
 validation.go | 12 +++++++++++-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/schema.go b/schema.go
index 5fd0091..86fc2c5 100644
--- a/schema.go
+++ b/schema.go
@@ -508,8 +508,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -520,8 +520,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -579,8 +579,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -591,8 +591,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 9081bd9..f71d26d 100644
--- a/validation.go
+++ b/validation.go
@@ -774,7 +774,17 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, isValidNumber := new(big.Rat).SetString(string(number))
+
+	// The exponent is too large to do exact arithmetic with
+	if !isValidNumber {
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(new(InternalError), context, number, ErrorDetails{"error": "number is out of range"})
+		}
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From 32975153d21fb7c43928b697758e1fb6d8ad0c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:41 +0000
Subject: [PATCH 03/16] fix: compare numbers in enum, const and uniqueItems
 exactly

Numbers were compared as float64, so that distinct large numbers were
considered equal, 0 and -0 were considered different and numbers that do
not fit in a float64 caused a panic.
---
 utils.go | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/utils.go b/utils.go
index 9fd05d7..bf9cff1 100644
--- a/utils.go
+++ b/utils.go
@@ -29,6 +29,8 @@ import (
 	"encoding/json"
 	"math/big"
 	"reflect"
+	"strconv"
+	"strings"
 )
 
 func isKind(what interface{}, kinds ...reflect.Kind) bool {
@@ -85,22 +87,57 @@ func marshalWithoutNumber(value interface{}) (*string, error) {
 
 	// The JSON is decoded using https://golang.org/pkg/encoding/json/#Decoder.UseNumber
 	// This means the numbers are internally still represented as strings and therefore 1.00 is unequal to 1
-	// One way to eliminate these differences is to decode and encode the JSON one more time without Decoder.UseNumber
-	// so that these differences in representation are removed
+	// One way to eliminate these differences is to decode and encode the JSON one more time and to write every
+	// number in a form that depends only on its value
 
 	jsonString, err := marshalToJSONString(value)
 	if err != nil {
 		return nil, err
 	}
 
-	var document interface{}
-
-	err = json.Unmarshal([]byte(*jsonString), &document)
+	document, err := decodeJSONUsingNumber(strings.NewReader(*jsonString))
 	if err != nil {
 		return nil, err
 	}
 
-	return marshalToJSONString(document)
+	return marshalToJSONString(canonicalizeNumbers(document))
+}
+
+// canonicalizeNumbers replaces all numbers in a JSON document by their canonical form
+func canonicalizeNumbers(document interface{}) interface{} {
+	switch v := document.(type) {
+	case json.Number:
+		return canonicalNumber(v)
+	case []interface{}:
+		for i := range v {
+			v[i] = canonicalizeNumbers(v[i])
+		}
+	case map[string]interface{}:
+		for k := range v {
+			v[k] = canonicalizeNumbers(v[k])
+		}
+	}
+	return document
+}
+
+// canonicalNumber returns the same JSON for all representations of a number. Numbers that can
+// be represented by a float64 are written as such, all others are written without loss of precision.
+func canonicalNumber(number json.Number) interface{} {
+	rat := mustBeNumber(number)
+	if rat == nil {
+		return number
+	}
+	if f, err := number.Float64(); err == nil {
+		if asFloat, ok := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64)); ok && asFloat.Cmp(rat) == 0 {
+			if f == 0 {
+				return 0 // also for -0
+			}
+			return f
+		}
+	}
+	// The number of digits after the decimal point never exceeds the number of bits of the denominator
+	decimal := rat.FloatString(rat.Denom().BitLen())
+	return json.Number(strings.TrimRight(strings.TrimRight(decimal, "0"), "."))
 }
 
 func isJSONNumber(what interface{}) bool {
-- 
2.43.0


From 7c6b6e9ea719ebb9383129d26f633c086039a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:42 +0000
Subject: [PATCH 04/16] fix: restore the state of the schema loader after
 meta-schema validation

If the meta-schema could not be compiled validation stayed switched off,
and afterwards references were loaded from the local file system even if
the schema was loaded using another file system.
---
 schemaLoader.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..da5a30f 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -68,15 +68,18 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
+	// Compile installs the loader factory of the schema that is compiled
+	loaderFactory := sl.pool.jsonLoaderFactory
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.pool.jsonLoaderFactory = loaderFactory
+	sl.Validate = true
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From b075f053b7c61ee44b688b252500187d5a722da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:44 +0000
Subject: [PATCH 05/16] fix: do not detect the draft of referenced documents if
 AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 7a3163169682839005f6a8e2edde38b9dcc746b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:45 +0000
Subject: [PATCH 06/16] fix: load files that have a plus sign in their path

---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..7a1d9cd 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 86a62473ddd3f77416ea148cf522ef19967d7d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:47 +0000
Subject: [PATCH 07/16] fix: ignore the siblings of every $ref when compiling a
 schema

They were ignored for the first occurrence of a reference only, which
made the outcome depend on the iteration order of maps.
---
 schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index 86fc2c5..a6571f1 100644
--- a/schema.go
+++ b/schema.go
@@ -241,9 +241,10 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if err != nil {
 				return err
 			}
-
-			return nil
 		}
+
+		// All other keywords next to a $ref are ignored
+		return nil
 	}
 
 	// type
-- 
2.43.0


From 570a5b0c8c7f253ede4cf9d77653638a18cb3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 08/16] fix: accept all representations of integers in schemas

Integers like 2.0 or 1e2 were rejected as a value of keywords like minLength.
---
 utils.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/utils.go b/utils.go
index bf9cff1..9032b74 100644
--- a/utils.go
+++ b/utils.go
@@ -169,26 +169,22 @@ const (
 
 func mustBeInteger(what interface{}) *int {
 
-	if isJSONNumber(what) {
-
-		number := what.(json.Number)
+	number := mustBeNumber(what)
 
-		isInt := checkJSONInteger(number)
-
-		if isInt {
-
-			int64Value, err := number.Int64()
-			if err != nil {
-				return nil
-			}
-
-			int32Value := int(int64Value)
-			return &int32Value
-		}
+	if number == nil || !number.IsInt() {
+		return nil
+	}
 
+	// Limits that do not fit in an int can't be reached anyway
+	intValue := int(^uint(0) >> 1)
+	if number.Sign() < 0 {
+		intValue = -1
+	}
+	if int64Value := number.Num().Int64(); number.Num().IsInt64() && int64(int(int64Value)) == int64Value {
+		intValue = int(int64Value)
 	}
 
-	return nil
+	return &intValue
 }
 
 func mustBeNumber(what interface{}) *big.Rat {
-- 
2.43.0


From d2d588fe7262d50b5c2426ea2272f3f7ae6afdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:15 +0000
Subject: [PATCH 09/16] fix: close the body of HTTP responses

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 7a1d9cd..81175fc 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From 1c4e80ce344884ecb3ae455f65a49f8e67caf7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:16 +0000
Subject: [PATCH 10/16] fix: resolve location independent identifiers in
 documents that still have to be loaded

An identifier that does not exist was resolved to the whole document.
---
 schemaPool.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..45d33a8 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -168,7 +168,7 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	refToURL.GetUrl().Fragment = ""
 
 	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
-		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
+		document, err := getFragment(reference, cachedSpd.Document)
 
 		if err != nil {
 			return nil, err
@@ -202,12 +202,17 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
+	// the fragment may be a location independent identifier in the document just loaded
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+		return spd, nil
+	}
+
 	if *p.autoDetect {
 		_, draft, _ = parseSchemaURL(document)
 	}
 
 	// resolve the potential fragment and also cache it
-	document, _, err = reference.GetPointer().Get(document)
+	document, err = getFragment(reference, document)
 
 	if err != nil {
 		return nil, err
@@ -215,3 +220,13 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 
 	return &schemaPoolDocument{Document: document, Draft: draft}, nil
 }
+
+// getFragment returns the part of the document the JSON pointer in the fragment of the reference points to
+func getFragment(reference gojsonreference.JsonReference, document interface{}) (interface{}, error) {
+	if fragment := reference.GetUrl().Fragment; fragment != "" && fragment[0] != '/' {
+		return nil, fmt.Errorf("Reference not found: \"%s\"", reference.String())
+	}
+
+	node, _, err := reference.GetPointer().Get(document)
+	return node, err
+}
-- 
2.43.0


From 3c916ab77d7d490e4d83a5bd3508c636ef02462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:18 +0000
Subject: [PATCH 11/16] fix: resolve references in definitions that are named
 like a keyword

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 45d33a8..f806a60 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 52bcfeac31dbc368c27d9dad30cc991cda27eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 12/16] fix: only use the identifier keyword of the draft of a
 schema to resolve references

---
 schemaLoader.go | 1 +
 schemaPool.go   | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index da5a30f..e4e8ce0 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -41,6 +41,7 @@ func NewSchemaLoader() *SchemaLoader {
 		Draft:      Hybrid,
 	}
 	ps.pool.autoDetect = &ps.AutoDetect
+	ps.pool.defaultDraft = &ps.Draft
 
 	return ps
 }
diff --git a/schemaPool.go b/schemaPool.go
index f806a60..87ec643 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -43,6 +43,7 @@ type schemaPool struct {
 	schemaPoolDocuments map[string]*schemaPoolDocument
 	jsonLoaderFactory   JSONLoaderFactory
 	autoDetect          *bool
+	defaultDraft        *Draft
 }
 
 func (p *schemaPool) parseReferences(document interface{}, ref gojsonreference.JsonReference, pooled bool) error {
@@ -88,8 +89,13 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 	case map[string]interface{}:
 		localRef := &ref
 
+		// In draft 6 the id keyword was renamed to $id
+		usedDraft := *p.defaultDraft
+		if draft != nil {
+			usedDraft = *draft
+		}
 		keyID := KEY_ID_NEW
-		if existsMapKey(m, KEY_ID) {
+		if usedDraft == Draft4 || (usedDraft == Hybrid && existsMapKey(m, KEY_ID)) {
 			keyID = KEY_ID
 		}
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
-- 
2.43.0


From bb6a348bd4f8b829aef50bfbb311297240c5993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:37 +0000
Subject: [PATCH 13/16] fix: detect the draft when compiling a part of a
 document

---
 schemaLoader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index e4e8ce0..f37b383 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -163,6 +163,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.referencePool = newSchemaReferencePool()
 
 	var doc interface{}
+	var docDraft *Draft
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -170,6 +171,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		docDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -196,6 +198,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		if detectedDraft == nil {
+			// doc may be part of a document
+			detectedDraft = docDraft
+		}
 		if detectedDraft != nil {
 			draft = *detectedDraft
 		}
-- 
2.43.0


From b8533c053b346a59e11b1fdaea43aae93e156aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:00 +0000
Subject: [PATCH 14/16] fix: do not accept IPv6 addresses with an embedded IPv4
 address as ipv4

---
 format_checkers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..903f794 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,8 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	// IPv6 addresses can contain an IPv4 address
+	return ip != nil && strings.Contains(asString, ".") && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From ee6b0ec5c23aa1d885e3cc3cf932b8666bc849d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:02 +0000
Subject: [PATCH 15/16] fix: accept URI templates with query and fragment
 expressions

---
 format_checkers.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/format_checkers.go b/format_checkers.go
index 903f794..9da1f30 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -132,8 +132,8 @@ var (
 	// Regex credit: https://www.socketloop.com/tutorials/golang-validate-hostname
 	rxHostname = regexp.MustCompile(`^([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9])(\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\-]{0,61}[a-zA-Z0-9]))*$`)
 
-	// Use a regex to make sure curly brackets are balanced properly after validating it as a AURI
-	rxURITemplate = regexp.MustCompile("^([^{]*({[^}]*})?)*$")
+	// Expressions can contain characters that have a special meaning in a URI, like in {?query} and {#fragment}
+	rxURITemplateExpression = regexp.MustCompile("{[^{}]*}")
 
 	rxUUID = regexp.MustCompile("^(?i)[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$")
 
@@ -306,12 +306,15 @@ func (f URITemplateFormatChecker) IsFormat(input interface{}) bool {
 		return true
 	}
 
-	u, err := url.Parse(asString)
-	if err != nil || strings.Contains(asString, `\`) {
+	literals := rxURITemplateExpression.ReplaceAllString(asString, "")
+
+	// Curly brackets that are left are not balanced properly
+	if strings.ContainsAny(literals, "{}") || strings.Contains(asString, `\`) {
 		return false
 	}
 
-	return rxURITemplate.MatchString(u.Path)
+	_, err := url.Parse(literals)
+	return err == nil
 }
 
 // IsFormat checks if input is a correctly formatted hostname
-- 
2.43.0


From ab68f419bfa95cbb3b2122fecb59a1f9941583dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:44 +0000
Subject: [PATCH 16/16] fix: report an error instead of panicking when a type
 is a number

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index a6571f1..2c5f5e8 100644
--- a/schema.go
+++ b/schema.go
@@ -260,7 +260,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0

