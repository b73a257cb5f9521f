From 45fb7eabe194b9424897df3e37ae6955a877eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 01/10] fix: hand out copies of region, calling-code and
 time-zone collections

GetSupportedRegions, GetSupportedCallingCodes,
GetSupportedGlobalNetworkCallingCodes, GetRegionCodesForCountryCode and the
time-zone lookups returned the library's own maps and slices, so a caller
changing one changed the answers of every later call.
---
 phonenumberutil.go   | 10 ++++++----
 timezone/timezone.go |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 621e61c..538fff2 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -4,8 +4,10 @@ package phonenumbers
 import (
 	"errors"
 	"iter"
+	"maps"
 	"math"
 	"regexp"
+	"slices"
 	"strconv"
 	"strings"
 	"unicode"
@@ -702,7 +704,7 @@ func normalizeHelper(number string,
 
 // GetSupportedRegions returns all regions the library has metadata for.
 func GetSupportedRegions() map[string]bool {
-	return metadata.SupportedRegions()
+	return maps.Clone(metadata.SupportedRegions())
 }
 
 // GetSupportedCallingCodes returns all country calling codes the library has metadata for, covering both non-geographical
@@ -710,12 +712,12 @@ func GetSupportedRegions() map[string]bool {
 // used to populate a drop-down box of country calling codes for a phone-number widget, for
 // instance.
 func GetSupportedCallingCodes() map[int]bool {
-	return metadata.SupportedCallingCodes()
+	return maps.Clone(metadata.SupportedCallingCodes())
 }
 
 // GetSupportedGlobalNetworkCallingCodes returns all global network calling codes the library has metadata for.
 func GetSupportedGlobalNetworkCallingCodes() map[int]bool {
-	return metadata.CountryCodesForNonGeographicalRegion()
+	return maps.Clone(metadata.CountryCodesForNonGeographicalRegion())
 }
 
 // allPhoneNumberTypes lists every PhoneNumberType, used to iterate types like
@@ -2026,7 +2028,7 @@ func GetRegionCodeForCountryCode(countryCallingCode int) string {
 // an empty list is returned.
 func GetRegionCodesForCountryCode(countryCallingCode int) []string {
 	var regionCodes []string = metadata.CountryCodeToRegion()[countryCallingCode]
-	return regionCodes
+	return slices.Clone(regionCodes)
 }
 
 // Returns the country calling code for a specific region. For example, this
diff --git a/timezone/timezone.go b/timezone/timezone.go
index d9e782c..29a21b0 100644
--- a/timezone/timezone.go
+++ b/timezone/timezone.go
@@ -4,6 +4,7 @@ package timezone
 import (
 	_ "embed"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -79,7 +80,7 @@ func lookupTimeZones(number string) ([]string, error) {
 		}
 		tzs, found := timezoneMap.Map[index]
 		if found {
-			return tzs, nil
+			return slices.Clone(tzs), nil
 		}
 	}
 	return []string{Unknown}, nil
-- 
2.43.0


From 0c6cb6263ef6a7b932bd46bd517ae0ac8e7c42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 02/10] fix: clear a reused PhoneNumber before parsing into it

ParseToNumber and ParseAndKeepRawInputToNumber left the extension, leading
zeros, raw input, country code source and carrier code of an earlier parse in
place when the new input did not set them.
---
 phonenumberutil.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phonenumberutil.go b/phonenumberutil.go
index 538fff2..66bf3c5 100644
--- a/phonenumberutil.go
+++ b/phonenumberutil.go
@@ -2640,6 +2640,7 @@ func Parse(numberToParse, defaultRegion string) (*PhoneNumber, error) {
 // Same as Parse(string, string), but accepts mutable PhoneNumber as a
 // parameter to decrease object creation when invoked many times.
 func ParseToNumber(numberToParse, defaultRegion string, phoneNumber *PhoneNumber) error {
+	phoneNumber.Reset()
 	return parseHelper(numberToParse, defaultRegion, false, true, phoneNumber)
 }
 
@@ -2660,6 +2661,7 @@ func ParseAndKeepRawInput(
 func ParseAndKeepRawInputToNumber(
 	numberToParse, defaultRegion string,
 	phoneNumber *PhoneNumber) error {
+	phoneNumber.Reset()
 	return parseHelper(numberToParse, defaultRegion, true, true, phoneNumber)
 }
 
-- 
2.43.0


From 1242121115a84f797d56786af0173087590740d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 03/10] fix: keep failing when the alternate formats cannot be
 loaded

sync.Once counts a panicking load as done, so after the first panic later
searches silently used an empty table. sync.OnceFunc repeats the panic.
---
 alternateformats.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/alternateformats.go b/alternateformats.go
index 9e15338..81dd237 100644
--- a/alternateformats.go
+++ b/alternateformats.go
@@ -17,8 +17,8 @@ import (
 // Loading is deferred to first use (rather than an init) so it never runs before
 // the protobuf runtime has finished registering the generated message types.
 var (
-	alternateFormatsOnce sync.Once
-	alternateFormatsMap  = make(map[int32]*PhoneMetadata)
+	alternateFormatsMap         = make(map[int32]*PhoneMetadata)
+	ensureAlternateFormatsReady = sync.OnceFunc(loadAlternateFormatsMetadata)
 )
 
 func loadAlternateFormatsMetadata() {
@@ -43,6 +43,6 @@ func loadAlternateFormatsMetadata() {
 // metadata for the given country calling code, or nil if none is available.
 // Mirrors upstream's getFormattingMetadataForCountryCallingCode.
 func getAlternateFormatsForCountryCallingCode(countryCallingCode int32) *PhoneMetadata {
-	alternateFormatsOnce.Do(loadAlternateFormatsMetadata)
+	ensureAlternateFormatsReady()
 	return alternateFormatsMap[countryCallingCode]
 }
-- 
2.43.0


From 0b22166afe61dc1691859ddf0890ebe1a1e0e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 04/10] fix: do not remember every unknown language ever asked
 for

Each distinct language code without data grew the cache for good.
---
 internal/prefixmapper/prefixmapper.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/internal/prefixmapper/prefixmapper.go b/internal/prefixmapper/prefixmapper.go
index 8162bec..127f8f3 100644
--- a/internal/prefixmapper/prefixmapper.go
+++ b/internal/prefixmapper/prefixmapper.go
@@ -39,7 +39,7 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
-	// if we already have prefixes (or nil if they don't exist) return that
+	// if we already have prefixes return those
 	prefixes, ok := m.langMap[language]
 	if ok {
 		return prefixes, nil
@@ -51,17 +51,19 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 		return nil, err
 	}
 
-	if data != nil {
-		prefixes, err = serialize.LoadPrefixMap(data)
-		if err != nil {
-			return nil, err
-		}
-		m.langMap[language] = prefixes
-	} else {
-		m.langMap[language] = nil // language doesn't have data
+	if data == nil {
+		// language doesn't have data; not cached, as there's no limit to how many
+		// such languages callers may ask for
+		return nil, nil
+	}
+
+	prefixes, err = serialize.LoadPrefixMap(data)
+	if err != nil {
+		return nil, err
 	}
+	m.langMap[language] = prefixes
 
-	return m.langMap[language], nil
+	return prefixes, nil
 }
 
 // ValueForNumber returns the value mapped to the longest matching prefix of the
-- 
2.43.0


From 12949e31fc2ec3be8a8ded27fde631b21a2c6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 05/10] fix: follow the remembered position through non-ASCII
 digits

While the output shows full-width or Arabic-indic digits as entered, none of
them equalled its normalized form and the position ran to the wrong place.
---
 asyoutypeformatter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asyoutypeformatter.go b/asyoutypeformatter.go
index 1de359a..6ee9854 100644
--- a/asyoutypeformatter.go
+++ b/asyoutypeformatter.go
@@ -471,7 +471,12 @@ func (aytf *AsYouTypeFormatter) GetRememberedPosition() int {
 	accruedInputIndex := 0
 	currentOutputIndex := 0
 	for accruedInputIndex < aytf.positionToRemember && currentOutputIndex < len(currentOutputRunes) {
-		if accruedInputRunes[accruedInputIndex] == currentOutputRunes[currentOutputIndex] {
+		// The accrued digits are normalized but the output may show them as entered.
+		outputRune := currentOutputRunes[currentOutputIndex]
+		if digit, ok := character.Digit(outputRune); ok {
+			outputRune = digit
+		}
+		if accruedInputRunes[accruedInputIndex] == outputRune {
 			accruedInputIndex++
 		}
 		currentOutputIndex++
-- 
2.43.0


From 6609583f4560565911899572096fe0f5ae5e8f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 06/10] fix: fail the metadata build when a source directory
 cannot be read

filepath.Glob ignores I/O errors, so an unreadable or missing directory was
taken for an empty one and the build went on to record the new version.
---
 cmd/buildmetadata/main.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 65d1ca0..32358e1 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -288,7 +288,7 @@ func buildTimezoneMetadata(srcFile, varName, destDir, dstFile string) error {
 
 func buildPrefixMetadata(srcDir, varName, destDir string) error {
 	// get our top level language directories
-	dirs, err := filepath.Glob(filepath.Join("_build", srcDir, "*"))
+	entries, err := os.ReadDir(filepath.Join("_build", srcDir))
 	if err != nil {
 		return err
 	}
@@ -300,11 +300,11 @@ func buildPrefixMetadata(srcDir, varName, destDir string) error {
 
 	// for each directory
 	languageMappings := make(map[string]map[int]string)
-	for _, dir := range dirs {
-		fi, _ := os.Stat(dir) // only look at directories
-		if !fi.IsDir() {
+	for _, entry := range entries {
+		if !entry.IsDir() { // only look at directories
 			continue
 		}
+		dir := filepath.Join("_build", srcDir, entry.Name())
 
 		// build a map for that directory
 		mappings, err := readMappingsForDir(dir)
@@ -490,12 +490,15 @@ func readMappingsForDir(dir string) (map[int]string, error) {
 	lang := filepath.Base(dir)
 	mappings := make(map[int]string)
 
-	files, err := filepath.Glob(dir + "/*.txt")
+	entries, err := os.ReadDir(dir)
 	if err != nil {
 		return nil, err
 	}
-	for _, file := range files {
-		body, err := os.ReadFile(file)
+	for _, entry := range entries {
+		if filepath.Ext(entry.Name()) != ".txt" {
+			continue
+		}
+		body, err := os.ReadFile(filepath.Join(dir, entry.Name()))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From e7900d87df0a0885ca95f91b36139e86475cb6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 07/10] fix: remove the files of languages dropped upstream

The embedded data kept answering in languages the recorded release no longer
has, so the result of a build depended on earlier builds.
---
 cmd/buildmetadata/main.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 32358e1..f111681 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -399,6 +399,20 @@ func buildPrefixMetadata(srcDir, varName, destDir string) error {
 		}
 	}
 
+	// remove the files of languages that upstream no longer has
+	existing, err := os.ReadDir(destDir)
+	if err != nil {
+		return err
+	}
+	for _, entry := range existing {
+		lang, isBlob := strings.CutSuffix(entry.Name(), ".txt.gz")
+		if _, built := languageMappings[lang]; isBlob && !built {
+			if err := os.Remove(filepath.Join(destDir, entry.Name())); err != nil {
+				return err
+			}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From e8cd213c56e7013bc7f129d47a5665df8f7c1a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:38 +0000
Subject: [PATCH 08/10] fix: keep the recorded version when writing it fails

A failed write left metadata/version.go truncated.
---
 cmd/buildmetadata/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index f111681..72c5a6f 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -169,8 +169,13 @@ package metadata
 const Version = %q
 `
 
-	if err := os.WriteFile("metadata/version.go", []byte(fmt.Sprintf(tmpl, version)), 0664); err != nil {
-		return fmt.Errorf("error writing metadata/version.go: %w", err)
+	// written to the side and renamed, so that a failure leaves the old version in place
+	const dst = "metadata/version.go"
+	if err := os.WriteFile(dst+".tmp", []byte(fmt.Sprintf(tmpl, version)), 0664); err != nil {
+		return fmt.Errorf("error writing %s: %w", dst, err)
+	}
+	if err := os.Rename(dst+".tmp", dst); err != nil {
+		return fmt.Errorf("error writing %s: %w", dst, err)
 	}
 
 	return nil
-- 
2.43.0


From 3882bceb7f1e9ed7dc17341b92b23ea69ab17674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:15 +0000
Subject: [PATCH 09/10] fix: refuse metadata that overflows the map format
 instead of writing it wrong

renderMap stored the number of values of a key as a uint8 and value indexes as
uint16 without checking either, so a source line with more than 255 values
silently produced a corrupt file.
---
 cmd/buildmetadata/main.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/buildmetadata/main.go b/cmd/buildmetadata/main.go
index 72c5a6f..f688b90 100644
--- a/cmd/buildmetadata/main.go
+++ b/cmd/buildmetadata/main.go
@@ -437,6 +437,12 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 			}
 		}
 	}
+
+	// make sure we won't overrun uint16s
+	if len(values) > math.MaxUint16 {
+		return nil, fmt.Errorf("too many values to represent in uint16")
+	}
+
 	sort.Strings(values)
 	sort.Ints(keys)
 
@@ -475,6 +481,9 @@ func renderMap(prefixMap map[int][]string) ([]byte, error) {
 
 		// then our values
 		values := prefixMap[key]
+		if len(values) > math.MaxUint8 {
+			return nil, fmt.Errorf("too many values for %d to represent in uint8", key)
+		}
 
 		// write our number of values
 		if err := binary.Write(data, binary.LittleEndian, uint8(len(values))); err != nil {
-- 
2.43.0


From 21c960b7adfb916fc1e1aaa019ce07e86f5196d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 10/10] fix: find carriers and areas by prefixes of any length

Lookups tried at most nine digits although the tables carry the length of their
longest prefix, so a longer upstream prefix was built into the data but never found.
---
 carrier/carrier.go                    |  2 +-
 geocoding/geocoding.go                |  2 +-
 internal/prefixmapper/prefixmapper.go | 13 ++++++-------
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/carrier/carrier.go b/carrier/carrier.go
index 623758f..ae18237 100644
--- a/carrier/carrier.go
+++ b/carrier/carrier.go
@@ -18,7 +18,7 @@ var mapper = prefixmapper.New(carrierData, "data")
 // accuracy. The number is assumed to be valid.
 func GetNameForValidNumber(number *phonenumbers.PhoneNumber, lang string) (string, error) {
 	e164 := phonenumbers.Format(number, phonenumbers.E164)
-	name, _, err := mapper.ValueForNumber(lang, 10, e164)
+	name, _, err := mapper.ValueForNumber(lang, e164)
 	return name, err
 }
 
diff --git a/geocoding/geocoding.go b/geocoding/geocoding.go
index f986de1..a26b963 100644
--- a/geocoding/geocoding.go
+++ b/geocoding/geocoding.go
@@ -34,7 +34,7 @@ func GetDescriptionForValidNumber(number *phonenumbers.PhoneNumber, lang string)
 	}
 
 	e164 := phonenumbers.Format(lookupNumber, phonenumbers.E164)
-	areaDescription, _, err := mapper.ValueForNumber(lang, 10, e164)
+	areaDescription, _, err := mapper.ValueForNumber(lang, e164)
 	if err != nil {
 		return "", err
 	}
diff --git a/internal/prefixmapper/prefixmapper.go b/internal/prefixmapper/prefixmapper.go
index 127f8f3..e6dcbdc 100644
--- a/internal/prefixmapper/prefixmapper.go
+++ b/internal/prefixmapper/prefixmapper.go
@@ -68,18 +68,17 @@ func (m *Mapper) lazyLoadPrefixes(language string) (*serialize.IntStringMap, err
 
 // ValueForNumber returns the value mapped to the longest matching prefix of the
 // given E164 string (as produced by Format with E164, leading + included),
-// along with the matched prefix, trying prefixes from maxLength digits downward.
-// It returns "" and 0 if no prefix matches or the language has no data.
-func (m *Mapper) ValueForNumber(language string, maxLength int, e164 string) (string, int, error) {
+// along with the matched prefix, trying prefixes from the length of the longest one
+// the language has downward. It returns "" and 0 if no prefix matches or the language
+// has no data.
+func (m *Mapper) ValueForNumber(language string, e164 string) (string, int, error) {
 	prefixes, err := m.lazyLoadPrefixes(language)
 	if err != nil || prefixes == nil {
 		return "", 0, err
 	}
 
-	l := len(e164)
-	if maxLength > l {
-		maxLength = l
-	}
+	// one more for the leading '+'
+	maxLength := min(len(e164), prefixes.MaxLength+1)
 	// e164[0] is the leading '+', which strconv.Atoi reads as a sign, so e.g.
 	// "+86137" parses to 86137 — the prefixes are keyed without the plus.
 	for i := maxLength; i > 1; i-- {
-- 
2.43.0

