From 65a4b01a082275040414cd083cccfe5c82c7af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 01/51] fix: package lookups before any Configure panicked and
 left the config locked

---
 gotext.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 059403c..e38fd4c 100644
--- a/gotext.go
+++ b/gotext.go
@@ -55,7 +55,6 @@ func init() {
 		domain:    "default",
 		languages: []string{FallbackLocale},
 		library:   "/usr/local/share/locale",
-		locales:   make([]*Locale, 0),
 	}
 
 	// Register Translator types for gob encoding
@@ -90,7 +89,7 @@ func loadLocales(rebuildCache bool) {
 func GetDomain() string {
 	var dom string
 	globalConfig.RLock()
-	if globalConfig.locales != nil {
+	if len(globalConfig.locales) > 0 {
 		// All locales have the same domain
 		dom = globalConfig.locales[0].GetDomain()
 	}
-- 
2.43.0


From 530286733cfeb15f9f7526077eca9f9e0a3c6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 02/51] fix: lookups deadlocked when formatting an argument
 called back into gotext

---
 domain.go | 127 ++++++++++++++++++++----------------------------------
 gotext.go |  33 +++++++-------
 locale.go |  77 ++++++++++-----------------------
 3 files changed, 86 insertions(+), 151 deletions(-)

diff --git a/domain.go b/domain.go
index 328b255..d0a6194 100644
--- a/domain.go
+++ b/domain.go
@@ -267,37 +267,33 @@ func (do *Domain) Set(id, str string) {
 	}
 }
 
-// Get retrieves the Translation for the given string.
-func (do *Domain) Get(str string, vars ...interface{}) string {
+// lookup returns the unformatted Translation for the given string.
+// Formatting is left to the callers: it may run user code (e.g. String methods of the arguments)
+// that uses this Domain again, so it must not happen with the lock held.
+func (do *Domain) lookup(str string) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].Get(), vars...)
+			return do.translations[str].Get()
 		}
 	}
 
 	// Return the same we received by default
-	return FormatString(str, vars...)
+	return str
+}
+
+// Get retrieves the Translation for the given string.
+func (do *Domain) Get(str string, vars ...interface{}) string {
+	return FormatString(do.lookup(str), vars...)
 }
 
 // Append retrieves the Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) Append(b []byte, str string, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].Get(), vars...)
-		}
-	}
-
-	// Return the same we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.lookup(str), vars...)
 }
 
 // SetN sets the (N)th plural form for the given string
@@ -321,44 +317,35 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	}
 }
 
-// GetN retrieves the (N)th plural form of Translation for the given string.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+// lookupN returns the unformatted (N)th plural form of Translation for the given string.
+func (do *Domain) lookupN(str, plural string, n int) string {
 	// Sync read
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return FormatString(do.translations[str].GetN(do.pluralForm(n)), vars...)
+			return do.translations[str].GetN(do.pluralForm(n))
 		}
 	}
 
 	// Parse plural forms to distinguish between plural and singular
 	if do.pluralForm(n) == 0 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
+}
+
+// GetN retrieves the (N)th plural form of Translation for the given string.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func (do *Domain) GetN(str, plural string, n int, vars ...interface{}) string {
+	return FormatString(do.lookupN(str, plural, n), vars...)
 }
 
 // AppendN adds the (N)th plural form of Translation for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte {
-	// Sync read
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.translations != nil {
-		if _, ok := do.translations[str]; ok {
-			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
-		}
-	}
-
-	// Parse plural forms to distinguish between plural and singular
-	if do.pluralForm(n) == 0 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.lookupN(str, plural, n), vars...)
 }
 
 // SetC sets the translation for the given string in the given context
@@ -387,9 +374,8 @@ func (do *Domain) SetC(id, ctx, str string) {
 	}
 }
 
-// GetC retrieves the corresponding Translation for a given string in the given context.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+// lookupC returns the unformatted Translation for a given string in the given context.
+func (do *Domain) lookupC(str, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -397,34 +383,26 @@ func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].Get(), vars...)
+					return do.contextTranslations[ctx][str].Get()
 				}
 			}
 		}
 	}
 
 	// Return the string we received by default
-	return FormatString(str, vars...)
+	return str
+}
+
+// GetC retrieves the corresponding Translation for a given string in the given context.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func (do *Domain) GetC(str, ctx string, vars ...interface{}) string {
+	return FormatString(do.lookupC(str, ctx), vars...)
 }
 
 // AppendC retrieves the corresponding Translation for a given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
-				}
-			}
-		}
-	}
-
-	// Return the string we received by default
-	return Appendf(b, str, vars...)
+	return Appendf(b, do.lookupC(str, ctx), vars...)
 }
 
 // SetNC sets the (N)th plural form for the given string in the given context
@@ -456,9 +434,8 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 	}
 }
 
-// GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+// lookupNC returns the unformatted (N)th plural form of Translation for the given string in the given context.
+func (do *Domain) lookupNC(str, plural string, n int, ctx string) string {
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
@@ -466,38 +443,28 @@ func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return FormatString(do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
+					return do.contextTranslations[ctx][str].GetN(do.pluralForm(n))
 				}
 			}
 		}
 	}
 
 	if n == 1 {
-		return FormatString(str, vars...)
+		return str
 	}
-	return FormatString(plural, vars...)
+	return plural
+}
+
+// GetNC retrieves the (N)th plural form of Translation for the given string in the given context.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func (do *Domain) GetNC(str, plural string, n int, ctx string, vars ...interface{}) string {
+	return FormatString(do.lookupNC(str, plural, n, ctx), vars...)
 }
 
 // AppendNC retrieves the (N)th plural form of Translation for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte {
-	do.trMutex.RLock()
-	defer do.trMutex.RUnlock()
-
-	if do.contextTranslations != nil {
-		if _, ok := do.contextTranslations[ctx]; ok {
-			if do.contextTranslations[ctx] != nil {
-				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
-				}
-			}
-		}
-	}
-
-	if n == 1 {
-		return Appendf(b, str, vars...)
-	}
-	return Appendf(b, plural, vars...)
+	return Appendf(b, do.lookupNC(str, plural, n, ctx), vars...)
 }
 
 // IsTranslated reports whether a string is translated
diff --git a/gotext.go b/gotext.go
index e38fd4c..b6c542d 100644
--- a/gotext.go
+++ b/gotext.go
@@ -246,15 +246,15 @@ func GetD(dom, str string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	// The config isn't locked while formatting, which may call back into this package
+	locales := GetLocales()
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		if _, ok := locale.Domains[dom]; !ok {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedD(dom, str) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetD(dom, str, vars...)
@@ -269,15 +269,15 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	// The config isn't locked while formatting, which may call back into this package
+	locales := GetLocales()
 
 	var tr string
-	for i, locale := range globalConfig.locales {
+	for i, locale := range locales {
 		if _, ok := locale.Domains[dom]; !ok {
 			locale.AddDomain(dom)
 		}
-		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {
+		if !locale.IsTranslatedND(dom, str, n) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetND(dom, str, plural, n, vars...)
@@ -304,12 +304,12 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 	// Try to load default package Locales
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	// The config isn't locked while formatting, which may call back into this package
+	locales := GetLocales()
 
 	var tr string
-	for i, locale := range globalConfig.locales {
-		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
+	for i, locale := range locales {
+		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetDC(dom, str, ctx, vars...)
@@ -324,13 +324,12 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 	// Try to load default package Locales
 	loadLocales(false)
 
-	// Return Translation
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	// The config isn't locked while formatting, which may call back into this package
+	locales := GetLocales()
 
 	var tr string
-	for i, locale := range globalConfig.locales {
-		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
+	for i, locale := range locales {
+		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(locales)-1) {
 			continue
 		}
 		tr = locale.GetNDC(dom, str, plural, n, ctx, vars...)
diff --git a/locale.go b/locale.go
index 381e560..a1c52f1 100644
--- a/locale.go
+++ b/locale.go
@@ -248,19 +248,24 @@ func (l *Locale) GetN(str, plural string, n int, vars ...interface{}) string {
 	return l.GetND(l.GetDomain(), str, plural, n, vars...)
 }
 
-// GetD returns the corresponding Translation in the given domain for the given string.
-// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
-func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
+// translator returns the Translator of the given domain, or nil if there isn't one.
+// The lock isn't held while the Translator is used, as it may call back into the Locale.
+func (l *Locale) translator(dom string) Translator {
 	// Sync read
 	l.RLock()
 	defer l.RUnlock()
 
 	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].Get(str, vars...)
-			}
-		}
+		return l.Domains[dom]
+	}
+	return nil
+}
+
+// GetD returns the corresponding Translation in the given domain for the given string.
+// Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
+func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
+	if translator := l.translator(dom); translator != nil {
+		return translator.Get(str, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -269,16 +274,8 @@ func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
 // GetND retrieves the (N)th plural form of Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetN(str, plural, n, vars...)
-			}
-		}
+	if translator := l.translator(dom); translator != nil {
+		return translator.GetN(str, plural, n, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -303,16 +300,8 @@ func (l *Locale) GetNC(str, plural string, n int, ctx string, vars ...interface{
 // GetDC returns the corresponding Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetC(str, ctx, vars...)
-			}
-		}
+	if translator := l.translator(dom); translator != nil {
+		return translator.GetC(str, ctx, vars...)
 	}
 
 	return FormatString(str, vars...)
@@ -321,16 +310,8 @@ func (l *Locale) GetDC(dom, str, ctx string, vars ...interface{}) string {
 // GetNDC retrieves the (N)th plural form of Translation in the given domain for the given string in the given context.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) string {
-	// Sync read
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains != nil {
-		if _, ok := l.Domains[dom]; ok {
-			if l.Domains[dom] != nil {
-				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
-			}
-		}
+	if translator := l.translator(dom); translator != nil {
+		return translator.GetNC(str, plural, n, ctx, vars...)
 	}
 
 	// Use western default rule (plural > 1) to handle missing domain default result.
@@ -372,14 +353,8 @@ func (l *Locale) IsTranslatedD(dom, str string) bool {
 
 // IsTranslatedND reports whether a plural domain string is translated
 func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains == nil {
-		return false
-	}
-	translator, ok := l.Domains[dom]
-	if !ok {
+	translator := l.translator(dom)
+	if translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedN(str, n)
@@ -402,14 +377,8 @@ func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
 func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool {
-	l.RLock()
-	defer l.RUnlock()
-
-	if l.Domains == nil {
-		return false
-	}
-	translator, ok := l.Domains[dom]
-	if !ok {
+	translator := l.translator(dom)
+	if translator == nil {
 		return false
 	}
 	return translator.GetDomain().IsTranslatedNC(str, n, ctx)
-- 
2.43.0


From 6c2f2720dd7590ad9c8e99712c46a1cb942c138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 03/51] fix: package functions read a locale's domains without
 its lock

---
 gotext.go | 6 +++---
 locale.go | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index b6c542d..f7a1e5e 100644
--- a/gotext.go
+++ b/gotext.go
@@ -76,7 +76,7 @@ func loadLocales(rebuildCache bool) {
 	}
 
 	for _, locale := range globalConfig.locales {
-		if _, ok := locale.Domains[globalConfig.domain]; !ok || rebuildCache {
+		if !locale.hasDomain(globalConfig.domain) || rebuildCache {
 			locale.AddDomain(globalConfig.domain)
 		}
 		locale.SetDomain(globalConfig.domain)
@@ -251,7 +251,7 @@ func GetD(dom, str string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedD(dom, str) && i < (len(locales)-1) {
@@ -274,7 +274,7 @@ func GetND(dom, str, plural string, n int, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range locales {
-		if _, ok := locale.Domains[dom]; !ok {
+		if !locale.hasDomain(dom) {
 			locale.AddDomain(dom)
 		}
 		if !locale.IsTranslatedND(dom, str, n) && i < (len(locales)-1) {
diff --git a/locale.go b/locale.go
index a1c52f1..f75bb1f 100644
--- a/locale.go
+++ b/locale.go
@@ -261,6 +261,15 @@ func (l *Locale) translator(dom string) Translator {
 	return nil
 }
 
+// hasDomain reports whether the given domain has been added.
+func (l *Locale) hasDomain(dom string) bool {
+	l.RLock()
+	defer l.RUnlock()
+
+	_, ok := l.Domains[dom]
+	return ok
+}
+
 // GetD returns the corresponding Translation in the given domain for the given string.
 // Supports optional parameters (vars... interface{}) to be inserted on the formatted string using the fmt.Printf syntax.
 func (l *Locale) GetD(dom, str string, vars ...interface{}) string {
-- 
2.43.0


From 4f396f92efbf912df0b38b00d8a1dd3add4e92f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 04/51] fix: context lookups ignored a domain that no plain
 lookup had loaded yet

---
 gotext.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gotext.go b/gotext.go
index f7a1e5e..c105745 100644
--- a/gotext.go
+++ b/gotext.go
@@ -309,6 +309,9 @@ func GetDC(dom, str, ctx string, vars ...interface{}) string {
 
 	var tr string
 	for i, locale := range locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(locales)-1) {
 			continue
 		}
@@ -329,6 +332,9 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 
 	var tr string
 	for i, locale := range locales {
+		if !locale.hasDomain(dom) {
+			locale.AddDomain(dom)
+		}
 		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(locales)-1) {
 			continue
 		}
-- 
2.43.0


From f756ffaa85fe8b31e6bffcbe3ddca4e704cae761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 05/51] fix: unlocked accesses to shared catalogue and locale
 state

---
 domain.go | 24 ++++++++++++++++++++----
 gotext.go |  6 +++---
 locale.go | 47 +++++++++++++++++++++++++++++++----------------
 po.go     |  2 +-
 4 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/domain.go b/domain.go
index d0a6194..5696dd8 100644
--- a/domain.go
+++ b/domain.go
@@ -102,6 +102,9 @@ func NewDomain() *Domain {
 
 // SetPluralResolver sets a custom plural resolver function
 func (do *Domain) SetPluralResolver(f func(int) int) {
+	do.pluralMutex.Lock()
+	defer do.pluralMutex.Unlock()
+
 	do.customPluralResolver = f
 }
 
@@ -513,11 +516,11 @@ func (do *Domain) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // GetTranslations returns a copy of every translation in the domain. It does not support contexts.
 func (do *Domain) GetTranslations() map[string]*Translation {
-	all := make(map[string]*Translation, len(do.translations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]*Translation, len(do.translations))
+
 	for msgID, trans := range do.translations {
 		newTrans := NewTranslation()
 		newTrans.ID = trans.ID
@@ -538,11 +541,11 @@ func (do *Domain) GetTranslations() map[string]*Translation {
 
 // GetCtxTranslations returns a copy of every translation in the domain with context
 func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
-	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
-
 	do.trMutex.RLock()
 	defer do.trMutex.RUnlock()
 
+	all := make(map[string]map[string]*Translation, len(do.contextTranslations))
+
 	for ctx, translations := range do.contextTranslations {
 		for msgID, trans := range translations {
 			newTrans := NewTranslation()
@@ -594,6 +597,9 @@ func extractPathAndLine(ref string) (string, int) {
 // MarshalText implements encoding.TextMarshaler interface
 // Assists round-trip of POT/PO content
 func (do *Domain) MarshalText() ([]byte, error) {
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
 	var buf bytes.Buffer
 	if len(do.headerComments) > 0 {
 		buf.WriteString(strings.Join(do.headerComments, "\n"))
@@ -790,6 +796,11 @@ func EscapeSpecialCharacters(s string) string {
 
 // MarshalBinary implements encoding.BinaryMarshaler interface
 func (do *Domain) MarshalBinary() ([]byte, error) {
+	do.trMutex.RLock()
+	do.pluralMutex.RLock()
+	defer do.trMutex.RUnlock()
+	defer do.pluralMutex.RUnlock()
+
 	obj := new(TranslatorEncoding)
 	obj.Headers = do.Headers
 	obj.Language = do.Language
@@ -817,6 +828,11 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	do.trMutex.Lock()
+	do.pluralMutex.Lock()
+	defer do.trMutex.Unlock()
+	defer do.pluralMutex.Unlock()
+
 	do.Headers = obj.Headers
 	do.Language = obj.Language
 	do.PluralForms = obj.PluralForms
diff --git a/gotext.go b/gotext.go
index c105745..2d8feed 100644
--- a/gotext.go
+++ b/gotext.go
@@ -193,12 +193,12 @@ func SetLocales(locales []*Locale) {
 	defer globalConfig.Unlock()
 
 	globalConfig.locales = locales
-	globalConfig.library = locales[0].path
-	globalConfig.domain = locales[0].defaultDomain
+	globalConfig.library, _ = locales[0].location()
+	globalConfig.domain = locales[0].GetDomain()
 
 	var languages []string
 	for _, locale := range locales {
-		languages = append(languages, locale.lang)
+		languages = append(languages, locale.GetLanguage())
 	}
 	globalConfig.languages = languages
 }
diff --git a/locale.go b/locale.go
index f75bb1f..cb798b5 100644
--- a/locale.go
+++ b/locale.go
@@ -90,26 +90,34 @@ func NewLocaleFSWithPath(l string, filesystem fs.FS, p string) *Locale {
 	return loc
 }
 
+// location returns the path and the language that files are looked for in.
+func (l *Locale) location() (root, lang string) {
+	l.RLock()
+	defer l.RUnlock()
+	return l.path, l.lang
+}
+
 func (l *Locale) findExt(dom, ext string) string {
-	filename := path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+	root, lang := l.location()
+	filename := path.Join(root, lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(root, lang[:2], "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
 	}
 
-	filename = path.Join(l.path, l.lang, dom+"."+ext)
+	filename = path.Join(root, lang, dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(l.lang) > 2 {
-		filename = path.Join(l.path, l.lang[:2], dom+"."+ext)
+	if len(lang) > 2 {
+		filename = path.Join(root, lang[:2], dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -121,31 +129,32 @@ func (l *Locale) findExt(dom, ext string) string {
 // GetActualLanguage inspects the filesystem and decides whether to strip
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
+	root, lang := l.location()
 	extensions := []string{"mo", "po"}
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
-		fp = path.Join(l.path, l.lang, "LC_MESSAGES", dom+"."+ext)
+		fp = path.Join(root, lang, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(root, lang[:2], "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
-		fp = path.Join(l.path, l.lang, dom+"."+ext)
+		fp = path.Join(root, lang, dom+"."+ext)
 		if l.fileExists(fp) {
-			return l.lang
+			return lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(l.lang) > 2 {
-			fp = path.Join(l.path, l.lang[:2], dom+"."+ext)
+		if len(lang) > 2 {
+			fp = path.Join(root, lang[:2], dom+"."+ext)
 			if l.fileExists(fp) {
-				return l.lang[:2]
+				return lang[:2]
 			}
 		}
 	}
@@ -403,6 +412,9 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
+	l.RLock()
+	defer l.RUnlock()
+
 	obj := new(LocaleEncoding)
 	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
@@ -434,6 +446,9 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
 	l.defaultDomain = obj.DefaultDomain
 	l.lang = obj.Lang
 	l.path = obj.Path
diff --git a/po.go b/po.go
index e70eb87..8b00825 100644
--- a/po.go
+++ b/po.go
@@ -94,7 +94,7 @@ func (po *Po) GetRefs(str string) []string {
 
 // SetPluralResolver sets the plural resolver function
 func (po *Po) SetPluralResolver(f func(int) int) {
-	po.domain.customPluralResolver = f
+	po.domain.SetPluralResolver(f)
 }
 
 // Set translation
-- 
2.43.0


From 1b375b599063c788bf76e2d51c73223769024172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 06/51] fix: plural rules with a zero modulus or a malformed
 last branch were accepted

---
 plurals/compiler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c28297a..8bc06a4 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -54,7 +54,7 @@ func (ternaryStruct) compile(tokens []string) (expr Expression, err error) {
 	}
 	falseAction, err := compileExpression(strings.Join(actions.Right, ""))
 	if err != nil {
-		return expr, nil
+		return expr, err
 	}
 	return ternary{
 		test:      test,
@@ -134,6 +134,9 @@ func compileMod(tokens []string) (math math, err error) {
 	if err != nil {
 		return math, err
 	}
+	if i == 0 {
+		return math, errors.New("modulus by zero")
+	}
 	return mod{value: uint32(i)}, nil
 }
 
-- 
2.43.0


From 056e8b68f66864ca04d717a2ddcef1b358958ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 07/51] fix: refusing a plural rule leaked goroutines

---
 plurals/compiler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 8bc06a4..c83e10d 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -369,6 +369,8 @@ func tokenize(s string) ([]string, error) {
 		s = s[1 : len(s)-1]
 	}
 	ret := []string{}
+	var err error
+	// Read all the chunks even after an error: split's goroutine ends only then
 	for chunk := range split(s) {
 		if len(chunk) != 0 {
 			if chunk[0] == '(' && chunk[len(chunk)-1] == ')' {
@@ -382,13 +384,16 @@ func tokenize(s string) ([]string, error) {
 					matchedLen += len(token[0])
 				}
 				if matchedLen != len(chunk) {
-					return nil, fmt.Errorf("invalid character in expression chunk: %s", chunk)
+					err = fmt.Errorf("invalid character in expression chunk: %s", chunk)
 				}
 			}
 		} else {
 			fmt.Printf("Empty chunk in string '%s'\n", s)
 		}
 	}
+	if err != nil {
+		return nil, err
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From ea95f8501751d0d3188ff43260b328a53d6f6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 08/51] fix: valid plural rules with enclosing parentheses or
 constants were refused

---
 plurals/compiler.go | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index c83e10d..173b9ed 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -353,21 +353,39 @@ func split(s string) <-chan string {
 	return ch
 }
 
+// Check if the string starts with a ( and ends with the ) matching it.
+//
+// Eg: (foo) -> true; (foo)(bar) -> false;
+func enclosed(s string) bool {
+	if len(s) == 0 || s[0] != '(' {
+		return false
+	}
+	depth := 0
+	for index, char := range s {
+		switch char {
+		case '(':
+			depth++
+		case ')':
+			depth--
+		}
+		if depth == 0 {
+			return index == len(s)-1
+		}
+	}
+	return false
+}
+
 // Tokenizes a string into a list of strings, tokens grouped by parenthesis are
-// not split! If the string starts with ( and ends in ), those are stripped.
+// not split! If the string starts with ( and ends in ), and those two form a
+// matching pair, they are stripped.
 func tokenize(s string) ([]string, error) {
-	/*
-		TODO: Properly detect if the string starts with a ( and ends with a )
-		and that those two form a matching pair.
-
-		Eg: (foo) -> true; (foo)(bar) -> false;
-	*/
+	s = strings.TrimSpace(s)
+	for enclosed(s) {
+		s = strings.TrimSpace(s[1 : len(s)-1])
+	}
 	if len(s) == 0 {
 		return []string{}, nil
 	}
-	if s[0] == '(' && s[len(s)-1] == ')' {
-		s = s[1 : len(s)-1]
-	}
 	ret := []string{}
 	var err error
 	// Read all the chunks even after an error: split's goroutine ends only then
@@ -399,10 +417,11 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
-	if s == "0" {
-		return constValue{value: 0}, nil
-	}
 	if !strings.Contains(s, "?") {
+		if expr, err := compileExpression(s); err == nil {
+			// A constant
+			return expr, nil
+		}
 		s += "?1:0"
 	}
 	return compileExpression(s)
-- 
2.43.0


From f2d4c9d72838f9c3d251dde0e1615a34b4688d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 09/51] fix: a bare n in a plural rule was taken as n==1
 instead of n!=0

---
 plurals/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 173b9ed..b48ce93 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -471,7 +471,7 @@ func compileTest(s string) (test test, err error) {
 		}, nil
 	}
 	if len(tokens) == 1 && tokens[0] == "n" {
-		return equal{value: 1}, nil
+		return notequal{value: 0}, nil
 	}
 	return test, errors.New("cannot compile")
 }
-- 
2.43.0


From f7a674d2f349e24a0cf0df481b80bab1958e5fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 10/51] fix: plural rules with spaces inside of an operator or
 number were accepted

---
 plurals/compiler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index b48ce93..2c5a22f 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -24,6 +24,9 @@ type match struct {
 
 var pat = regexp.MustCompile(`(\?|:|\|\||&&|==|!=|>=|>|<=|<|%|\d+|n|\(|\))`)
 
+// Spaces inside of a token or between two operands
+var badSpace = regexp.MustCompile(`[0-9n)] +[0-9n(]|[=!<>&|] +[=&|]`)
+
 type testToken interface {
 	compile(tokens []string) (test test, err error)
 }
@@ -417,6 +420,9 @@ func tokenize(s string) ([]string, error) {
 
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
+	if badSpace.MatchString(s) {
+		return nil, fmt.Errorf("misplaced space in expression: %s", s)
+	}
 	if !strings.Contains(s, "?") {
 		if expr, err := compileExpression(s); err == nil {
 			// A constant
-- 
2.43.0


From f8f3368900e38bd984f9e8a6c00ff9da0ebebd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/51] fix: MO files with out of range counts, offsets or
 lengths crashed or exhausted memory

---
 mo.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mo.go b/mo.go
index 389deba..730a7d9 100644
--- a/mo.go
+++ b/mo.go
@@ -203,6 +203,14 @@ func (mo *Mo) Parse(buf []byte) {
 		// return fmt.Errorf("gettext: %v", "invalid version number")
 	}
 
+	// Both tables and all the strings must lie inside of the file
+	size := int64(len(buf))
+	tableSize := int64(header.MsgIDCount) * 8
+	if int64(header.MsgIDOffset)+tableSize > size || int64(header.MsgStrOffset)+tableSize > size {
+		return
+		// return fmt.Errorf("gettext: %v", "invalid string tables")
+	}
+
 	msgIDStart := make([]uint32, header.MsgIDCount)
 	msgIDLen := make([]uint32, header.MsgIDCount)
 	if _, err := r.Seek(int64(header.MsgIDOffset), 0); err != nil {
@@ -238,6 +246,11 @@ func (mo *Mo) Parse(buf []byte) {
 	}
 
 	for i := 0; i < int(header.MsgIDCount); i++ {
+		if int64(msgIDStart[i])+int64(msgIDLen[i]) > size || msgStrLen[i] < 0 || int64(msgStrStart[i])+int64(msgStrLen[i]) > size {
+			return
+			// return fmt.Errorf("gettext: %v", "invalid string position")
+		}
+
 		if _, err := r.Seek(int64(msgIDStart[i]), 0); err != nil {
 			return
 			// return fmt.Errorf("gettext: %v", err)
-- 
2.43.0


From bd78e4848327765647c5a22d7ade142224b43221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 12/51] fix: singular MO entries were given their own id as
 plural

---
 mo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mo.go b/mo.go
index 730a7d9..d5b4594 100644
--- a/mo.go
+++ b/mo.go
@@ -304,6 +304,9 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	if len(dd) > 1 {
 		msgid = dd[0]
 		dd = dd[1:]
+	} else {
+		// No plural
+		dd = nil
 	}
 
 	translation.ID = string(msgid)
-- 
2.43.0


From af8158f5afb07905a7c988b298dfefe203ef0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 13/51] fix: plural lookups of entries without a plural
 returned an empty string

---
 domain.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 5696dd8..1438360 100644
--- a/domain.go
+++ b/domain.go
@@ -328,7 +328,10 @@ func (do *Domain) lookupN(str, plural string, n int) string {
 
 	if do.translations != nil {
 		if _, ok := do.translations[str]; ok {
-			return do.translations[str].GetN(do.pluralForm(n))
+			// Entries loaded without a plural have nothing to fall back to
+			if tr := do.translations[str].GetN(do.pluralForm(n)); tr != "" {
+				return tr
+			}
 		}
 	}
 
@@ -446,7 +449,9 @@ func (do *Domain) lookupNC(str, plural string, n int, ctx string) string {
 		if _, ok := do.contextTranslations[ctx]; ok {
 			if do.contextTranslations[ctx] != nil {
 				if _, ok := do.contextTranslations[ctx][str]; ok {
-					return do.contextTranslations[ctx][str].GetN(do.pluralForm(n))
+					if tr := do.contextTranslations[ctx][str].GetN(do.pluralForm(n)); tr != "" {
+						return tr
+					}
 				}
 			}
 		}
-- 
2.43.0


From 0fb5b088096b0692b3c1837aa6c801f6f023173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 14/51] fix: plural edits lost the plural id of context and
 singular entries

---
 domain.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/domain.go b/domain.go
index 1438360..7f20234 100644
--- a/domain.go
+++ b/domain.go
@@ -310,6 +310,9 @@ func (do *Domain) SetN(id, plural string, n int, str string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[id]; ok {
+		if trans.PluralID == "" {
+			trans.PluralID = plural
+		}
 		trans.SetN(pluralForm, str)
 	} else {
 		trans = NewTranslation()
@@ -423,16 +426,21 @@ func (do *Domain) SetNC(id, plural, ctx string, n int, str string) {
 
 	if context, ok := do.contextTranslations[ctx]; ok {
 		if trans, hasTrans := context[id]; hasTrans {
+			if trans.PluralID == "" {
+				trans.PluralID = plural
+			}
 			trans.SetN(pluralForm, str)
 		} else {
 			trans = NewTranslation()
 			trans.ID = id
+			trans.PluralID = plural
 			trans.SetN(pluralForm, str)
 			context[id] = trans
 		}
 	} else {
 		trans := NewTranslation()
 		trans.ID = id
+		trans.PluralID = plural
 		trans.SetN(pluralForm, str)
 		do.contextTranslations[ctx] = map[string]*Translation{
 			id: trans,
-- 
2.43.0


From 75c43e493542e48c680c79cb2407cc4978202afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/51] fix: entries whose references were set were dropped as
 stale

---
 domain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 7f20234..2298975 100644
--- a/domain.go
+++ b/domain.go
@@ -230,7 +230,7 @@ func (do *Domain) SetRefs(str string, refs []string) {
 	defer do.pluralMutex.Unlock()
 
 	if trans, ok := do.translations[str]; ok {
-		trans.Refs = refs
+		trans.SetRefs(refs)
 	} else {
 		trans = NewTranslation()
 		trans.ID = str
-- 
2.43.0


From 5ebc1b657449530937ff2dcd5cacdb96abc67abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 16/51] fix: source references leaked to later PO entries and
 only the last line was kept

---
 po.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/po.go b/po.go
index 8b00825..bd0b515 100644
--- a/po.go
+++ b/po.go
@@ -302,11 +302,7 @@ func (po *Po) saveBuffer() {
 	}
 
 	// Flush Translation buffer
-	if po.domain.refBuffer == "" {
-		po.domain.trBuffer = NewTranslation()
-	} else {
-		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(po.domain.refBuffer, " "))
-	}
+	po.domain.trBuffer = NewTranslation()
 }
 
 // Either preserves comments before the first "msgid", for later round-trip.
@@ -315,11 +311,12 @@ func (po *Po) parseComment(l string, state parseState) {
 	if len(l) > 0 && l[0] == '#' {
 		if state == head {
 			po.domain.headerComments = append(po.domain.headerComments, l)
-		} else if len(l) > 1 {
+		}
+		if len(l) > 1 {
 			switch l[1] {
 			case ':':
 				if len(l) > 2 {
-					po.domain.refBuffer = strings.TrimSpace(l[2:])
+					po.domain.refBuffer += l[2:] + " "
 				}
 			}
 		}
@@ -342,6 +339,12 @@ func (po *Po) parseID(l string) {
 	// Save current Translation buffer.
 	po.saveBuffer()
 
+	// The references read since the previous message belong to this one
+	if refs := strings.Fields(po.domain.refBuffer); len(refs) > 0 {
+		po.domain.trBuffer.Refs = refs
+	}
+	po.domain.refBuffer = ""
+
 	// Set id
 	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 }
-- 
2.43.0


From 595b5107116a3240eb2f1989ce91ffbaaf3fd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 17/51] fix: an empty context or an incomplete last entry
 erased the PO header

---
 po.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/po.go b/po.go
index bd0b515..52c34d2 100644
--- a/po.go
+++ b/po.go
@@ -242,7 +242,7 @@ func (po *Po) Parse(buf []byte) {
 
 		// Buffer msgid and continue
 		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
-			po.parseID(l)
+			po.parseID(l, state)
 			state = msgID
 			continue
 		}
@@ -285,6 +285,12 @@ func (po *Po) Parse(buf []byte) {
 // saveBuffer takes the context and Translation buffers
 // and saves it on the translations collection
 func (po *Po) saveBuffer() {
+	// Only the header has no id: don't replace it with an empty or incomplete entry
+	if po.domain.trBuffer.ID == "" && len(po.domain.trBuffer.Trs) == 0 {
+		po.domain.trBuffer = NewTranslation()
+		return
+	}
+
 	// With no context...
 	if po.domain.ctxBuffer == "" {
 		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
@@ -335,9 +341,12 @@ func (po *Po) parseContext(l string) {
 
 // parseID takes a line starting with "msgid",
 // saves the current Translation and creates a new msgid buffer.
-func (po *Po) parseID(l string) {
-	// Save current Translation buffer.
-	po.saveBuffer()
+func (po *Po) parseID(l string, state parseState) {
+	// Save current Translation buffer, unless msgctxt has just done it.
+	if state != msgCtxt {
+		po.saveBuffer()
+		po.domain.ctxBuffer = ""
+	}
 
 	// The references read since the previous message belong to this one
 	if refs := strings.Fields(po.domain.refBuffer); len(refs) > 0 {
-- 
2.43.0


From af804f0580631ae06a15d4804cbcd3d17ecec680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 18/51] fix: continuation lines of sparse or malformed plural
 forms went to another form

---
 domain.go | 1 +
 po.go     | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 2298975..718c220 100644
--- a/domain.go
+++ b/domain.go
@@ -45,6 +45,7 @@ type Domain struct {
 	trBuffer  *Translation
 	ctxBuffer string
 	refBuffer string
+	trIndex   int
 
 	customPluralResolver func(int) int
 }
diff --git a/po.go b/po.go
index 52c34d2..2cb8077 100644
--- a/po.go
+++ b/po.go
@@ -366,6 +366,7 @@ func (po *Po) parsePluralID(l string) {
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
 func (po *Po) parseMessage(l string) {
 	l = strings.TrimSpace(strings.TrimPrefix(l, "msgstr"))
+	po.domain.trIndex = -1
 
 	// Check for indexed Translation forms
 	if strings.HasPrefix(l, "[") {
@@ -377,10 +378,11 @@ func (po *Po) parseMessage(l string) {
 
 		// Parse index
 		i, err := strconv.Atoi(l[1:idx])
-		if err != nil {
+		if err != nil || i < 0 {
 			// Skip wrong index formatting
 			return
 		}
+		po.domain.trIndex = i
 
 		// Parse Translation string
 		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
@@ -390,6 +392,7 @@ func (po *Po) parseMessage(l string) {
 	}
 
 	// Save single Translation form under 0 index
+	po.domain.trIndex = 0
 	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
 }
 
@@ -401,7 +404,9 @@ func (po *Po) parseString(l string, state parseState) {
 	switch state {
 	case msgStr:
 		// Append to last Translation found
-		po.domain.trBuffer.Trs[len(po.domain.trBuffer.Trs)-1] += clean
+		if po.domain.trIndex >= 0 {
+			po.domain.trBuffer.Trs[po.domain.trIndex] += clean
+		}
 
 	case msgID:
 		// Multiline msgid - Append to current id
-- 
2.43.0


From c848ba8d54396a64e363071996076f6f6168c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 19/51] fix: loading a second file kept the first one's headers
 and plural rule

---
 domain.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index 718c220..8f6215d 100644
--- a/domain.go
+++ b/domain.go
@@ -24,6 +24,9 @@ type Domain struct {
 	// Plural-Forms header
 	PluralForms string
 
+	// Entry which the headers have been read from
+	headerEntry *Translation
+
 	// Preserve comments at head of PO for round-trip
 	headerComments []string
 
@@ -140,6 +143,18 @@ func (do *Domain) parseHeaders() {
 	languageKey := "Language"
 	pluralFormsKey := "Plural-Forms"
 
+	// A new header entry replaces the headers and the plural rule of an earlier one
+	if raw != "" {
+		if do.headerEntry == do.translations[""] {
+			return
+		}
+		do.headerEntry = do.translations[""]
+		do.Headers = make(HeaderMap)
+		do.nplurals = 0
+		do.plural = ""
+		do.pluralforms = nil
+	}
+
 	rawLines := strings.Split(raw, "\n")
 	for _, line := range rawLines {
 		if len(line) == 0 {
@@ -184,7 +199,7 @@ func (do *Domain) parseHeaders() {
 
 		switch strings.TrimSpace(vs[0]) {
 		case "nplurals":
-			do.nplurals, _ = strconv.Atoi(vs[1])
+			do.nplurals, _ = strconv.Atoi(strings.TrimSpace(vs[1]))
 
 		case "plural":
 			do.plural = vs[1]
-- 
2.43.0


From 13c1a37d645ce674f05ab8f938d3162cb491d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 20/51] fix: edits and loads after restoring a catalogue
 panicked on nil maps

---
 domain.go     | 32 ++++++++++++++++++++++++++++++++
 translator.go |  1 +
 2 files changed, 33 insertions(+)

diff --git a/domain.go b/domain.go
index 8f6215d..0731c2f 100644
--- a/domain.go
+++ b/domain.go
@@ -846,6 +846,36 @@ func (do *Domain) MarshalBinary() ([]byte, error) {
 	return buff.Bytes(), err
 }
 
+// restoreMaps replaces what gob doesn't encode because it is empty, so that the Domain can be used.
+func (do *Domain) restoreMaps() {
+	if do.Headers == nil {
+		do.Headers = make(HeaderMap)
+	}
+	if do.translations == nil {
+		do.translations = make(map[string]*Translation)
+	}
+	if do.contextTranslations == nil {
+		do.contextTranslations = make(map[string]map[string]*Translation)
+	}
+	do.headerEntry = do.translations[""]
+
+	for _, trans := range do.translations {
+		if trans.Trs == nil {
+			trans.Trs = make(map[int]string)
+		}
+	}
+	for ctx, translations := range do.contextTranslations {
+		if translations == nil {
+			do.contextTranslations[ctx] = make(map[string]*Translation)
+		}
+		for _, trans := range translations {
+			if trans.Trs == nil {
+				trans.Trs = make(map[int]string)
+			}
+		}
+	}
+}
+
 // UnmarshalBinary implements encoding.BinaryUnmarshaler interface
 func (do *Domain) UnmarshalBinary(data []byte) error {
 	buff := bytes.NewBuffer(data)
@@ -869,7 +899,9 @@ func (do *Domain) UnmarshalBinary(data []byte) error {
 	do.plural = obj.Plural
 	do.translations = obj.Translations
 	do.contextTranslations = obj.Contexts
+	do.restoreMaps()
 
+	do.pluralforms = nil
 	if expr, err := plurals.Compile(do.plural); err == nil {
 		do.pluralforms = expr
 	}
diff --git a/translator.go b/translator.go
index e32e3ab..1fa8aee 100644
--- a/translator.go
+++ b/translator.go
@@ -71,6 +71,7 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 	po.domain.plural = te.Plural
 	po.domain.translations = te.Translations
 	po.domain.contextTranslations = te.Contexts
+	po.domain.restoreMaps()
 
 	return po
 }
-- 
2.43.0


From 9abef14f6349df1f546a79024c88b5edbb25af53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 21/51] fix: restored locales lost their plural rule

---
 translator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/translator.go b/translator.go
index 1fa8aee..a2ae7ab 100644
--- a/translator.go
+++ b/translator.go
@@ -9,6 +9,8 @@ import (
 	"errors"
 	"io/fs"
 	"os"
+
+	"github.com/leonelquinteros/gotext/plurals"
 )
 
 // Translator interface is used by Locale and Po objects.Translator
@@ -73,6 +75,10 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 	po.domain.contextTranslations = te.Contexts
 	po.domain.restoreMaps()
 
+	if expr, err := plurals.Compile(te.Plural); err == nil {
+		po.domain.pluralforms = expr
+	}
+
 	return po
 }
 
-- 
2.43.0


From 139fbecf6bd13fe197d004286464c0bfe4f5b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 22/51] fix: restored PO and MO objects had no headers

---
 mo.go         | 16 +++++++++++++++-
 po.go         | 16 +++++++++++++++-
 translator.go |  6 ++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/mo.go b/mo.go
index d5b4594..a7a4ec3 100644
--- a/mo.go
+++ b/mo.go
@@ -142,7 +142,21 @@ func (mo *Mo) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Mo object from a binary format
 func (mo *Mo) UnmarshalBinary(data []byte) error {
-	return mo.domain.UnmarshalBinary(data)
+	if err := mo.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// Lock while copying
+	mo.domain.trMutex.Lock()
+	defer mo.domain.trMutex.Unlock()
+
+	// set values on this struct
+	// this is for backwards compatibility
+	mo.Language = mo.domain.Language
+	mo.PluralForms = mo.domain.PluralForms
+	mo.Headers = mo.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations specified in the provided file, in the GNU gettext .mo format
diff --git a/po.go b/po.go
index 2cb8077..f174573 100644
--- a/po.go
+++ b/po.go
@@ -189,7 +189,21 @@ func (po *Po) MarshalBinary() ([]byte, error) {
 
 // UnmarshalBinary unmarshals the Po object from binary
 func (po *Po) UnmarshalBinary(data []byte) error {
-	return po.domain.UnmarshalBinary(data)
+	if err := po.domain.UnmarshalBinary(data); err != nil {
+		return err
+	}
+
+	// Lock while copying
+	po.domain.trMutex.Lock()
+	defer po.domain.trMutex.Unlock()
+
+	// set values on this struct
+	// this is for backwards compatibility
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
+	return nil
 }
 
 // ParseFile loads the translations from a file
diff --git a/translator.go b/translator.go
index a2ae7ab..b991d3c 100644
--- a/translator.go
+++ b/translator.go
@@ -79,6 +79,12 @@ func (te *TranslatorEncoding) GetTranslator() Translator {
 		po.domain.pluralforms = expr
 	}
 
+	// set values on this struct
+	// this is for backwards compatibility
+	po.Language = po.domain.Language
+	po.PluralForms = po.domain.PluralForms
+	po.Headers = po.domain.Headers
+
 	return po
 }
 
-- 
2.43.0


From 8da812ae7b089a11e7a41614f9a1590c3a7a53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 23/51] fix: exported plural entries were not escaped and their
 forms came in random order

---
 domain.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/domain.go b/domain.go
index 0731c2f..6b85132 100644
--- a/domain.go
+++ b/domain.go
@@ -776,9 +776,14 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		if trans.PluralID == "" {
 			buf.WriteString("\nmsgstr \"" + EscapeSpecialCharacters(trans.Trs[0]) + "\"")
 		} else {
-			buf.WriteString("\nmsgid_plural \"" + trans.PluralID + "\"")
-			for i, tr := range trans.Trs {
-				buf.WriteString("\nmsgstr[" + EscapeSpecialCharacters(strconv.Itoa(i)) + "] \"" + tr + "\"")
+			buf.WriteString("\nmsgid_plural \"" + EscapeSpecialCharacters(trans.PluralID) + "\"")
+			forms := make([]int, 0, len(trans.Trs))
+			for i := range trans.Trs {
+				forms = append(forms, i)
+			}
+			sort.Ints(forms)
+			for _, i := range forms {
+				buf.WriteString("\nmsgstr[" + strconv.Itoa(i) + "] \"" + EscapeSpecialCharacters(trans.Trs[i]) + "\"")
 			}
 		}
 	}
-- 
2.43.0


From 8d95c1f676b73063f851c3e61dd64e3932691b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 24/51] fix: exported text did not escape backslashes, carriage
 returns and some quotes

---
 domain.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/domain.go b/domain.go
index 6b85132..e86f3e4 100644
--- a/domain.go
+++ b/domain.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"encoding/gob"
 	"fmt"
-	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -683,7 +682,7 @@ func (do *Domain) MarshalText() ([]byte, error) {
 		v := do.Headers[k]
 
 		for _, value := range v {
-			buf.WriteString("\n\"" + k + ": " + value + "\\n\"")
+			buf.WriteString("\n\"" + EscapeSpecialCharacters(k) + ": " + EscapeSpecialCharacters(value) + "\\n\"")
 		}
 	}
 
@@ -791,9 +790,12 @@ func (do *Domain) MarshalText() ([]byte, error) {
 	return buf.Bytes(), nil
 }
 
+// Characters with an escape sequence, apart from line feeds
+var specialCharacters = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\r", `\r`)
+
 // EscapeSpecialCharacters escapes special characters in a string
 func EscapeSpecialCharacters(s string) string {
-	s = regexp.MustCompile(`([^\\])(")`).ReplaceAllString(s, "$1\\\"") // Escape non-escaped double quotation marks
+	s = specialCharacters.Replace(s)
 
 	if strings.Count(s, "\n") == 0 {
 		return s
-- 
2.43.0


From 82037f85a09b6c7ba7ceabb3adebdadcf9276616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 25/51] fix: 'is translated' queries disagreed with the lookups
 they describe

---
 domain.go | 14 ++++++++++++--
 gotext.go | 57 +++++++++++++++++++++++++++----------------------------
 locale.go | 16 ++++++++++++----
 3 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/domain.go b/domain.go
index e86f3e4..c9a259a 100644
--- a/domain.go
+++ b/domain.go
@@ -500,7 +500,12 @@ func (do *Domain) AppendNC(b []byte, str, plural string, n int, ctx string, vars
 
 // IsTranslated reports whether a string is translated
 func (do *Domain) IsTranslated(str string) bool {
-	return do.IsTranslatedN(str, 1)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	// The same form that Get returns, whatever the plural rule
+	tr, ok := do.translations[str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -520,7 +525,12 @@ func (do *Domain) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (do *Domain) IsTranslatedC(str, ctx string) bool {
-	return do.IsTranslatedNC(str, 1, ctx)
+	do.trMutex.RLock()
+	defer do.trMutex.RUnlock()
+
+	// The same form that GetC returns, whatever the plural rule
+	tr, ok := do.contextTranslations[ctx][str]
+	return ok && tr.IsTranslated()
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
diff --git a/gotext.go b/gotext.go
index 2d8feed..607af68 100644
--- a/gotext.go
+++ b/gotext.go
@@ -347,7 +347,7 @@ func GetNDC(dom, str, plural string, n int, ctx string, vars ...interface{}) str
 // IsTranslated reports whether a string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslated(str string, langs ...string) bool {
-	return IsTranslatedND(GetDomain(), str, 1, langs...)
+	return IsTranslatedD(GetDomain(), str, langs...)
 }
 
 // IsTranslatedN reports whether a plural string is translated in given languages.
@@ -359,29 +359,43 @@ func IsTranslatedN(str string, n int, langs ...string) bool {
 // IsTranslatedD reports whether a domain string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedD(dom, str string, langs ...string) bool {
-	return IsTranslatedND(dom, str, 1, langs...)
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedD(dom, str)
+	})
 }
 
 // IsTranslatedND reports whether a plural domain string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedND(dom, str string, n int, langs ...string) bool {
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedND(dom, str, n)
+	})
+}
+
+// isTranslatedAny reports whether the given check holds for any of the locales of the given languages.
+// A language is either the one that the locale was asked for or the one that its file was found under.
+func isTranslatedAny(dom string, langs []string, check func(*Locale) bool) bool {
 	if len(langs) == 0 {
 		langs = GetLanguages()
 	}
 
 	loadLocales(false)
 
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
+	locales := GetLocales()
 
 	for _, lang := range langs {
 		lang = SimplifiedLocale(lang)
 
-		for _, supportedLocale := range globalConfig.locales {
-			if lang != supportedLocale.GetActualLanguage(dom) {
+		for _, locale := range locales {
+			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
 				continue
 			}
-			return supportedLocale.IsTranslatedND(dom, str, n)
+			if !locale.hasDomain(dom) {
+				locale.AddDomain(dom)
+			}
+			if check(locale) {
+				return true
+			}
 		}
 	}
 	return false
@@ -390,7 +404,7 @@ func IsTranslatedND(dom, str string, n int, langs ...string) bool {
 // IsTranslatedC reports whether a context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedC(str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(GetDomain(), str, 1, ctx, langs...)
+	return IsTranslatedDC(GetDomain(), str, ctx, langs...)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated in given languages.
@@ -402,30 +416,15 @@ func IsTranslatedNC(str string, n int, ctx string, langs ...string) bool {
 // IsTranslatedDC reports whether a domain context string is translated in given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedDC(dom, str, ctx string, langs ...string) bool {
-	return IsTranslatedNDC(dom, str, 0, ctx, langs...)
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedDC(dom, str, ctx)
+	})
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated in any of given languages.
 // When the langs argument is omitted, the output of GetLanguages is used.
 func IsTranslatedNDC(dom, str string, n int, ctx string, langs ...string) bool {
-	if len(langs) == 0 {
-		langs = GetLanguages()
-	}
-
-	loadLocales(false)
-
-	globalConfig.RLock()
-	defer globalConfig.RUnlock()
-
-	for _, lang := range langs {
-		lang = SimplifiedLocale(lang)
-
-		for _, locale := range globalConfig.locales {
-			if lang != locale.GetActualLanguage(dom) {
-				continue
-			}
-			return locale.IsTranslatedNDC(dom, str, n, ctx)
-		}
-	}
-	return false
+	return isTranslatedAny(dom, langs, func(locale *Locale) bool {
+		return locale.IsTranslatedNDC(dom, str, n, ctx)
+	})
 }
diff --git a/locale.go b/locale.go
index cb798b5..d0cce4e 100644
--- a/locale.go
+++ b/locale.go
@@ -356,7 +356,7 @@ func (l *Locale) GetTranslations() map[string]*Translation {
 
 // IsTranslated reports whether a string is translated
 func (l *Locale) IsTranslated(str string) bool {
-	return l.IsTranslatedND(l.GetDomain(), str, 1)
+	return l.IsTranslatedD(l.GetDomain(), str)
 }
 
 // IsTranslatedN reports whether a plural string is translated
@@ -366,7 +366,11 @@ func (l *Locale) IsTranslatedN(str string, n int) bool {
 
 // IsTranslatedD reports whether a domain string is translated
 func (l *Locale) IsTranslatedD(dom, str string) bool {
-	return l.IsTranslatedND(dom, str, 1)
+	translator := l.translator(dom)
+	if translator == nil {
+		return false
+	}
+	return translator.GetDomain().IsTranslated(str)
 }
 
 // IsTranslatedND reports whether a plural domain string is translated
@@ -380,7 +384,7 @@ func (l *Locale) IsTranslatedND(dom, str string, n int) bool {
 
 // IsTranslatedC reports whether a context string is translated
 func (l *Locale) IsTranslatedC(str, ctx string) bool {
-	return l.IsTranslatedNDC(l.GetDomain(), str, 1, ctx)
+	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
 }
 
 // IsTranslatedNC reports whether a plural context string is translated
@@ -390,7 +394,11 @@ func (l *Locale) IsTranslatedNC(str string, n int, ctx string) bool {
 
 // IsTranslatedDC reports whether a domain context string is translated
 func (l *Locale) IsTranslatedDC(dom, str, ctx string) bool {
-	return l.IsTranslatedNDC(dom, str, 1, ctx)
+	translator := l.translator(dom)
+	if translator == nil {
+		return false
+	}
+	return translator.GetDomain().IsTranslatedC(str, ctx)
 }
 
 // IsTranslatedNDC reports whether a plural domain context string is translated
-- 
2.43.0


From af0dbfbf758fc6238d69e64463fcda1d9151a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 26/51] fix: three-letter languages were looked up by two
 letters, and the actual language ignored PO precedence

---
 locale.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/locale.go b/locale.go
index d0cce4e..e5cb7b2 100644
--- a/locale.go
+++ b/locale.go
@@ -11,6 +11,7 @@ import (
 	"io/fs"
 	"os"
 	"path"
+	"strings"
 	"sync"
 )
 
@@ -97,15 +98,24 @@ func (l *Locale) location() (root, lang string) {
 	return l.path, l.lang
 }
 
+// baseLanguage strips the CC part of a ll_CC (or ll-CC) locale string.
+func baseLanguage(lang string) string {
+	if idx := strings.IndexAny(lang, "_-"); idx > 0 {
+		return lang[:idx]
+	}
+	return lang
+}
+
 func (l *Locale) findExt(dom, ext string) string {
 	root, lang := l.location()
+	base := baseLanguage(lang)
 	filename := path.Join(root, lang, "LC_MESSAGES", dom+"."+ext)
 	if l.fileExists(filename) {
 		return filename
 	}
 
-	if len(lang) > 2 {
-		filename = path.Join(root, lang[:2], "LC_MESSAGES", dom+"."+ext)
+	if base != lang {
+		filename = path.Join(root, base, "LC_MESSAGES", dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -116,8 +126,8 @@ func (l *Locale) findExt(dom, ext string) string {
 		return filename
 	}
 
-	if len(lang) > 2 {
-		filename = path.Join(root, lang[:2], dom+"."+ext)
+	if base != lang {
+		filename = path.Join(root, base, dom+"."+ext)
 		if l.fileExists(filename) {
 			return filename
 		}
@@ -130,7 +140,8 @@ func (l *Locale) findExt(dom, ext string) string {
 // a CC part of the ll_CC locale string.
 func (l *Locale) GetActualLanguage(dom string) string {
 	root, lang := l.location()
-	extensions := []string{"mo", "po"}
+	base := baseLanguage(lang)
+	extensions := []string{"po", "mo"} // As in AddDomain
 	var fp string
 	for _, ext := range extensions {
 		// 'll' (or 'll_CC') exists, and it was specified as-is
@@ -139,10 +150,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return lang
 		}
 		// 'll' exists, but 'll_CC' was specified
-		if len(lang) > 2 {
-			fp = path.Join(root, lang[:2], "LC_MESSAGES", dom+"."+ext)
+		if base != lang {
+			fp = path.Join(root, base, "LC_MESSAGES", dom+"."+ext)
 			if l.fileExists(fp) {
-				return lang[:2]
+				return base
 			}
 		}
 		// 'll' (or 'll_CC') exists outside of LC_category, and it was specified as-is
@@ -151,10 +162,10 @@ func (l *Locale) GetActualLanguage(dom string) string {
 			return lang
 		}
 		// 'll' exists outside of LC_category, but 'll_CC' was specified
-		if len(lang) > 2 {
-			fp = path.Join(root, lang[:2], dom+"."+ext)
+		if base != lang {
+			fp = path.Join(root, base, dom+"."+ext)
 			if l.fileExists(fp) {
-				return lang[:2]
+				return base
 			}
 		}
 	}
-- 
2.43.0


From 89b6c79324d2bc327d12e23383d616178e30edd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 27/51] fix: xgotext crashed on calls whose domain is not a
 literal

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 9e93dbc..476a2ae 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -155,6 +155,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	// get domain
 	var domain string
 	if def.Domain != -1 {
+		// Domain must be a string
+		if args[def.Domain] == nil || args[def.Domain].Kind != token.STRING {
+			log.Printf("ERR: Unsupported call at %s (Domain not a string)", pos)
+			return
+		}
 		domain, _ = strconv.Unquote(args[def.Domain].Value)
 	}
 
-- 
2.43.0


From e4a3c3c7e2b34a39c37923b24bc8739fc4cb21a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 28/51] fix: xgotext dropped the plural of a message first seen
 in a singular call

---
 cli/xgotext/parser/domain.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/domain.go b/cli/xgotext/parser/domain.go
index 35146ad..82478f2 100644
--- a/cli/xgotext/parser/domain.go
+++ b/cli/xgotext/parser/domain.go
@@ -121,6 +121,14 @@ type Domain struct {
 	ContextTranslations map[string]TranslationMap
 }
 
+// merge another occurrence of the same translation
+func (t *Translation) merge(other *Translation) {
+	if t.MsgIDPlural == "" {
+		t.MsgIDPlural = other.MsgIDPlural
+	}
+	t.AddLocations(other.SourceLocations)
+}
+
 // AddTranslation to the domain
 func (d *Domain) AddTranslation(translation *Translation) {
 	if d.Translations == nil {
@@ -130,7 +138,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 
 	if translation.Context == "" {
 		if t, ok := d.Translations[translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.Translations[translation.MsgID] = translation
 		}
@@ -140,7 +148,7 @@ func (d *Domain) AddTranslation(translation *Translation) {
 		}
 
 		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
-			t.AddLocations(translation.SourceLocations)
+			t.merge(translation)
 		} else {
 			d.ContextTranslations[translation.Context][translation.MsgID] = translation
 		}
-- 
2.43.0


From fe22d056299e808cd209c7b6b4d18aeb77934221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 29/51] fix: xgotext copied Go literals of contexts into the
 template as they are

---
 cli/xgotext/parser/gofile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 476a2ae..72c0cd4 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -189,7 +189,8 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 			log.Printf("ERR: Unsupported call at %s (Context not a string)", pos)
 			return
 		}
-		trans.Context = args[def.Context].Value
+		context, _ := strconv.Unquote(args[def.Context].Value)
+		trans.Context = formatMultiline(fixSpecialChars(context))
 	}
 
 	g.Data.AddTranslation(domain, &trans)
-- 
2.43.0


From c7d2383aa97b9ac4a5e55b9725e35f2b6edf1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 30/51] fix: xgotext wrote a second header for empty messages

---
 cli/xgotext/parser/gofile.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 72c0cd4..2c65e67 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -170,6 +170,11 @@ func (g *GoFile) ParseGetter(def GetterDef, args []*ast.BasicLit, pos string) {
 	}
 
 	msgID, _ := strconv.Unquote(args[def.ID].Value)
+	if msgID == "" {
+		// It would be a second header
+		log.Printf("ERR: Unsupported call at %s (ID is empty)", pos)
+		return
+	}
 	trans := Translation{
 		MsgID:           msgID,
 		SourceLocations: []string{pos},
-- 
2.43.0


From bd8de45d7a22a12a9b9cfd1e336f6ea56ecee40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 31/51] fix: xgotext excluded directories that merely start
 with an excluded name

---
 cli/xgotext/parser/dir/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 9f92c27..2125c01 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -50,7 +50,11 @@ func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbo
 			// skip directory if in exclude list
 			subDir, _ := filepath.Rel(dirPath, path)
 			for _, d := range exclude {
-				if strings.HasPrefix(subDir, d) {
+				if d == "" {
+					continue
+				}
+				d = filepath.Clean(d)
+				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
 					return nil
 				}
 			}
-- 
2.43.0


From ac934e7c8d9755f39c5e43cbb642791f2b47ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 32/51] fix: xgotext missed calls in packages that import one
 of their own name

---
 cli/xgotext/parser/dir/golang.go      | 3 ++-
 cli/xgotext/parser/pkg-tree/golang.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index ec924ee..660a13b 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -51,8 +51,9 @@ func goParser(dirPath, basePath string, data *parser.DomainMap) error {
 				Data:     data,
 				FileSet:  fileSet,
 
+				// No import can have this name and replace the package itself
 				ImportedPackages: map[string]*packages.Package{
-					pkgs[0].Name: pkgs[0],
+					" " + pkgs[0].Name: pkgs[0],
 				},
 			},
 		}
diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index d66e351..f6b1c3c 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -40,8 +40,9 @@ func pkgParser(dirPath, basePath string, data *parser.DomainMap, verbose bool) e
 					Data:     data,
 					FileSet:  pkg.Fset,
 
+					// No import can have this name and replace the package itself
 					ImportedPackages: map[string]*packages.Package{
-						pkg.Name: pkg,
+						" " + pkg.Name: pkg,
 					},
 				},
 			}
-- 
2.43.0


From c1e81befe80fc78638008f30079333c119dc420d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 33/51] fix: untranslated context plurals ignored the
 catalogue's plural rule

---
 domain.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domain.go b/domain.go
index c9a259a..543ca46 100644
--- a/domain.go
+++ b/domain.go
@@ -480,7 +480,8 @@ func (do *Domain) lookupNC(str, plural string, n int, ctx string) string {
 		}
 	}
 
-	if n == 1 {
+	// Same rule as without a context
+	if do.pluralForm(n) == 0 {
 		return str
 	}
 	return plural
-- 
2.43.0


From 92b8318cf6b4ea04a280f3ddf314d2c0d12e0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 34/51] fix: PO strings with short octal escapes were read as
 empty

---
 po.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/po.go b/po.go
index f174573..abddf99 100644
--- a/po.go
+++ b/po.go
@@ -7,6 +7,7 @@ package gotext
 
 import (
 	"io/fs"
+	"regexp"
 	"strconv"
 	"strings"
 )
@@ -44,6 +45,21 @@ type Po struct {
 	fs     fs.FS
 }
 
+// Any escape sequence of a PO string, apart from octal ones told by its first character
+var escapeSequence = regexp.MustCompile(`\\([0-7]{1,3}|.)`)
+
+// unquote returns the text of a quoted PO string. As in C, an octal escape may have less than the
+// three digits that Go asks for.
+func unquote(s string) (string, error) {
+	s = escapeSequence.ReplaceAllStringFunc(s, func(esc string) string {
+		if esc[1] >= '0' && esc[1] <= '7' {
+			return `\` + strings.Repeat("0", 4-len(esc)) + esc[1:]
+		}
+		return esc
+	})
+	return strconv.Unquote(s)
+}
+
 type parseState int
 
 const (
@@ -350,7 +366,7 @@ func (po *Po) parseContext(l string) {
 	po.saveBuffer()
 
 	// Buffer context
-	po.domain.ctxBuffer, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
+	po.domain.ctxBuffer, _ = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgctxt")))
 }
 
 // parseID takes a line starting with "msgid",
@@ -369,12 +385,12 @@ func (po *Po) parseID(l string, state parseState) {
 	po.domain.refBuffer = ""
 
 	// Set id
-	po.domain.trBuffer.ID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
+	po.domain.trBuffer.ID, _ = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
 }
 
 // parsePluralID saves the plural id buffer from a line starting with "msgid_plural"
 func (po *Po) parsePluralID(l string) {
-	po.domain.trBuffer.PluralID, _ = strconv.Unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid_plural")))
+	po.domain.trBuffer.PluralID, _ = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid_plural")))
 }
 
 // parseMessage takes a line starting with "msgstr" and saves it into the current buffer.
@@ -399,7 +415,7 @@ func (po *Po) parseMessage(l string) {
 		po.domain.trIndex = i
 
 		// Parse Translation string
-		po.domain.trBuffer.Trs[i], _ = strconv.Unquote(strings.TrimSpace(l[idx+1:]))
+		po.domain.trBuffer.Trs[i], _ = unquote(strings.TrimSpace(l[idx+1:]))
 
 		// Loop
 		return
@@ -407,13 +423,13 @@ func (po *Po) parseMessage(l string) {
 
 	// Save single Translation form under 0 index
 	po.domain.trIndex = 0
-	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
+	po.domain.trBuffer.Trs[0], _ = unquote(l)
 }
 
 // parseString takes a well formatted string without prefix
 // and creates headers or attach multi-line strings when corresponding
 func (po *Po) parseString(l string, state parseState) {
-	clean, _ := strconv.Unquote(l)
+	clean, _ := unquote(l)
 
 	switch state {
 	case msgStr:
-- 
2.43.0


From 6fc030436ae23933c17a7e63c294ba99a13381f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 35/51] fix: PO strings and references continued over many
 lines took quadratic time

---
 domain.go |  3 ++-
 po.go     | 48 ++++++++++++++++++++++++++++++++----------------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/domain.go b/domain.go
index 543ca46..2af4458 100644
--- a/domain.go
+++ b/domain.go
@@ -46,7 +46,8 @@ type Domain struct {
 	// Parsing buffers
 	trBuffer  *Translation
 	ctxBuffer string
-	refBuffer string
+	refBuffer []string
+	strBuffer []byte
 	trIndex   int
 
 	customPluralResolver func(int) int
diff --git a/po.go b/po.go
index abddf99..9c3bc1b 100644
--- a/po.go
+++ b/po.go
@@ -250,7 +250,8 @@ func (po *Po) Parse(buf []byte) {
 	// Init buffer
 	po.domain.trBuffer = NewTranslation()
 	po.domain.ctxBuffer = ""
-	po.domain.refBuffer = ""
+	po.domain.refBuffer = nil
+	po.domain.strBuffer = nil
 
 	state := head
 	for _, l := range lines {
@@ -263,6 +264,17 @@ func (po *Po) Parse(buf []byte) {
 			continue
 		}
 
+		// Multi line strings and headers
+		if strings.HasPrefix(l, "\"") {
+			if strings.HasSuffix(l, "\"") {
+				po.bufferString(l)
+			}
+			continue
+		}
+
+		// The string before ends here
+		po.parseString(state)
+
 		// Buffer context and continue
 		if strings.HasPrefix(l, "msgctxt") {
 			po.parseContext(l)
@@ -291,13 +303,8 @@ func (po *Po) Parse(buf []byte) {
 			state = msgStr
 			continue
 		}
-
-		// Multi line strings and headers
-		if strings.HasPrefix(l, "\"") && strings.HasSuffix(l, "\"") {
-			po.parseString(l, state)
-			continue
-		}
 	}
+	po.parseString(state)
 
 	// Save last Translation buffer.
 	po.saveBuffer()
@@ -351,9 +358,7 @@ func (po *Po) parseComment(l string, state parseState) {
 		if len(l) > 1 {
 			switch l[1] {
 			case ':':
-				if len(l) > 2 {
-					po.domain.refBuffer += l[2:] + " "
-				}
+				po.domain.refBuffer = append(po.domain.refBuffer, strings.Fields(l[2:])...)
 			}
 		}
 	}
@@ -379,10 +384,10 @@ func (po *Po) parseID(l string, state parseState) {
 	}
 
 	// The references read since the previous message belong to this one
-	if refs := strings.Fields(po.domain.refBuffer); len(refs) > 0 {
-		po.domain.trBuffer.Refs = refs
+	if len(po.domain.refBuffer) > 0 {
+		po.domain.trBuffer.Refs = po.domain.refBuffer
 	}
-	po.domain.refBuffer = ""
+	po.domain.refBuffer = nil
 
 	// Set id
 	po.domain.trBuffer.ID, _ = unquote(strings.TrimSpace(strings.TrimPrefix(l, "msgid")))
@@ -426,10 +431,21 @@ func (po *Po) parseMessage(l string) {
 	po.domain.trBuffer.Trs[0], _ = unquote(l)
 }
 
-// parseString takes a well formatted string without prefix
-// and creates headers or attach multi-line strings when corresponding
-func (po *Po) parseString(l string, state parseState) {
+// bufferString takes a well formatted string without prefix.
+// The lines of a long string are only joined at its end, as joining each of them takes quadratic time.
+func (po *Po) bufferString(l string) {
 	clean, _ := unquote(l)
+	po.domain.strBuffer = append(po.domain.strBuffer, clean...)
+}
+
+// parseString takes the strings buffered since the last prefix
+// and creates headers or attach multi-line strings when corresponding
+func (po *Po) parseString(state parseState) {
+	clean := string(po.domain.strBuffer)
+	po.domain.strBuffer = nil
+	if clean == "" {
+		return
+	}
 
 	switch state {
 	case msgStr:
-- 
2.43.0


From 6dcab6ab1e254f16be37bf2f87ef89e1bdec5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 36/51] fix: long plural rules took minutes and gigabytes to
 compile

---
 plurals/compiler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/plurals/compiler.go b/plurals/compiler.go
index 2c5a22f..40840d9 100644
--- a/plurals/compiler.go
+++ b/plurals/compiler.go
@@ -418,8 +418,15 @@ func tokenize(s string) ([]string, error) {
 	return ret, nil
 }
 
+// Compiling takes time and memory in proportion to a higher power of the length. Real rules have less
+// than 400 characters.
+const maxRuleLength = 1000
+
 // Compile a string containing a plural form expression to a Expression object.
 func Compile(s string) (expr Expression, err error) {
+	if len(s) > maxRuleLength {
+		return nil, fmt.Errorf("expression of %d characters is too long", len(s))
+	}
 	if badSpace.MatchString(s) {
 		return nil, fmt.Errorf("misplaced space in expression: %s", s)
 	}
-- 
2.43.0


From 02fd0036f11b4263f918bb38fcab9f474dbb3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 37/51] fix: an escaped percent sign in front of a parenthesis
 was taken as a named verb

---
 helper.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/helper.go b/helper.go
index 1e6a610..8d0bb30 100644
--- a/helper.go
+++ b/helper.go
@@ -11,7 +11,8 @@ import (
 	"strings"
 )
 
-var re = regexp.MustCompile(`%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
+// A named verb, or an escaped percent sign which isn't the start of one
+var re = regexp.MustCompile(`%%|%\(([a-zA-Z0-9_]+)\)[.0-9]*[svTtbcdoqXxUeEfFgGp]`)
 
 // SimplifiedLocale simplified locale like " en_US"/"de_DE "/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/... to en_US, de_DE, zh_CN, el_GR...
 func SimplifiedLocale(lang string) string {
@@ -81,11 +82,16 @@ func reformatSprintf(f string) (string, []string) {
 
 	ord := []string{}
 	for _, v := range m {
-		ord = append(ord, v[1])
+		if v[0] != "%%" {
+			ord = append(ord, v[1])
+		}
 	}
 
 	pair := []int{0}
 	for _, v := range i {
+		if v[2] < 0 {
+			continue
+		}
 		pair = append(pair, v[2]-1)
 		pair = append(pair, v[3]+1)
 	}
-- 
2.43.0


From 8730e8fc14aac09a8c206a0b8f12dbbb3e87542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 38/51] fix: a load without a header forgot the language and
 rule of a dropped header entry

---
 domain.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/domain.go b/domain.go
index 2af4458..7f36d02 100644
--- a/domain.go
+++ b/domain.go
@@ -178,9 +178,13 @@ func (do *Domain) parseHeaders() {
 		do.Headers.Add(key, value)
 	}
 
-	// Get/save needed headers
-	do.Language = do.Headers.Get(languageKey)
-	do.PluralForms = do.Headers.Get(pluralFormsKey)
+	// Get/save needed headers, and keep earlier ones if their entry has been dropped since
+	if raw != "" || len(do.Headers.Values(languageKey)) > 0 {
+		do.Language = do.Headers.Get(languageKey)
+	}
+	if raw != "" || len(do.Headers.Values(pluralFormsKey)) > 0 {
+		do.PluralForms = do.Headers.Get(pluralFormsKey)
+	}
 
 	// Parse Plural-Forms formula
 	if do.PluralForms == "" {
-- 
2.43.0


From 8a5d2ecff27acf994066d70bcd4d73db18af8b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 39/51] fix: Locale.GetTranslations and MarshalBinary held the
 lock while using custom translators, which could deadlock

---
 locale.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/locale.go b/locale.go
index e5cb7b2..faa8fc4 100644
--- a/locale.go
+++ b/locale.go
@@ -281,6 +281,16 @@ func (l *Locale) translator(dom string) Translator {
 	return nil
 }
 
+// translators returns a copy of the Translators of all domains, to be used after the lock is released.
+// It has to be called with the lock held.
+func (l *Locale) translators() map[string]Translator {
+	all := make(map[string]Translator, len(l.Domains))
+	for dom, translator := range l.Domains {
+		all[dom] = translator
+	}
+	return all
+}
+
 // hasDomain reports whether the given domain has been added.
 func (l *Locale) hasDomain(dom string) bool {
 	l.RLock()
@@ -354,9 +364,12 @@ func (l *Locale) GetNDC(dom, str, plural string, n int, ctx string, vars ...inte
 func (l *Locale) GetTranslations() map[string]*Translation {
 	all := make(map[string]*Translation)
 
+	// The Translators are used without the lock, as they may call back into the Locale
 	l.RLock()
-	defer l.RUnlock()
-	for _, translator := range l.Domains {
+	translators := l.translators()
+	l.RUnlock()
+
+	for _, translator := range translators {
 		for msgID, trans := range translator.GetDomain().GetTranslations() {
 			all[msgID] = trans
 		}
@@ -431,21 +444,24 @@ type LocaleEncoding struct {
 
 // MarshalBinary implements encoding BinaryMarshaler interface
 func (l *Locale) MarshalBinary() ([]byte, error) {
-	l.RLock()
-	defer l.RUnlock()
-
 	obj := new(LocaleEncoding)
-	obj.DefaultDomain = l.defaultDomain
 	obj.Domains = make(map[string][]byte)
-	for k, v := range l.Domains {
+
+	// The Translators are used without the lock, as they may call back into the Locale
+	l.RLock()
+	obj.DefaultDomain = l.defaultDomain
+	obj.Lang = l.lang
+	obj.Path = l.path
+	translators := l.translators()
+	l.RUnlock()
+
+	for k, v := range translators {
 		var err error
 		obj.Domains[k], err = v.MarshalBinary()
 		if err != nil {
 			return nil, err
 		}
 	}
-	obj.Lang = l.lang
-	obj.Path = l.path
 
 	var buff bytes.Buffer
 	encoder := gob.NewEncoder(&buff)
-- 
2.43.0


From 866f3c1bc21fffb23dadbab40ddbcf0c55e27049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 40/51] fix: xgotext crashed on imports that match no package

---
 cli/xgotext/parser/dir/golang.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/golang.go b/cli/xgotext/parser/dir/golang.go
index 660a13b..ddd9380 100644
--- a/cli/xgotext/parser/dir/golang.go
+++ b/cli/xgotext/parser/dir/golang.go
@@ -1,6 +1,7 @@
 package dir
 
 import (
+	"fmt"
 	"go/ast"
 	"go/token"
 	"log"
@@ -75,7 +76,7 @@ func (g *GoFile) GetPackage(name string) (*packages.Package, error) {
 		return nil, err
 	}
 	if len(pkgs) == 0 {
-		return nil, nil
+		return nil, fmt.Errorf("not found")
 	}
 	return pkgs[0], nil
 }
-- 
2.43.0


From 2769727187a69d8751285ee5565e6ded1b74856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 41/51] fix: xgotext took names of headers for messages

---
 cli/xgotext/parser/gofile.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/xgotext/parser/gofile.go b/cli/xgotext/parser/gofile.go
index 2c65e67..ac658dd 100644
--- a/cli/xgotext/parser/gofile.go
+++ b/cli/xgotext/parser/gofile.go
@@ -89,6 +89,10 @@ func (g *GoFile) CheckType(rawType types.Type) bool {
 		if t.Obj().Pkg() == nil || t.Obj().Pkg().Path() != "github.com/leonelquinteros/gotext" {
 			return false
 		}
+		// The getter of a header isn't one of messages
+		if t.Obj().Name() == "HeaderMap" {
+			return false
+		}
 
 	case *types.Alias:
 		return g.CheckType(t.Rhs())
-- 
2.43.0


From 01002069ad14a3c3a4de8af832dec46611ff6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:43 +0000
Subject: [PATCH 42/51] fix: xgotext -pkg-tree wrote one or the other plural of
 a message by chance

---
 cli/xgotext/parser/pkg-tree/golang.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index f6b1c3c..50573c6 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -6,6 +6,7 @@ import (
 	"go/token"
 	"log"
 	"os"
+	"sort"
 	"strconv"
 
 	"golang.org/x/tools/go/packages"
@@ -85,7 +86,16 @@ func filterPkgs(pkg *packages.Package) []*packages.Package {
 func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 	result := make([]*packages.Package, 0, 100)
 	pkgCache[pkg.ID] = pkg
-	for _, importedPkg := range pkg.Imports {
+
+	// in a fixed order, so that the same sources always give the same result
+	paths := make([]string, 0, len(pkg.Imports))
+	for path := range pkg.Imports {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	for _, path := range paths {
+		importedPkg := pkg.Imports[path]
 		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
 			result = append(result, pkg)
 		}
-- 
2.43.0


From 4e831875d8df18f93d3359a995893bfc1d4a0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 43/51] fix: xgotext -pkg-tree missed calls in packages that
 use gotext by way of others

---
 cli/xgotext/parser/pkg-tree/golang.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cli/xgotext/parser/pkg-tree/golang.go b/cli/xgotext/parser/pkg-tree/golang.go
index 50573c6..947a42b 100644
--- a/cli/xgotext/parser/pkg-tree/golang.go
+++ b/cli/xgotext/parser/pkg-tree/golang.go
@@ -86,6 +86,9 @@ func filterPkgs(pkg *packages.Package) []*packages.Package {
 func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 	result := make([]*packages.Package, 0, 100)
 	pkgCache[pkg.ID] = pkg
+	if usesGotext(pkg, make(map[string]bool)) {
+		result = append(result, pkg)
+	}
 
 	// in a fixed order, so that the same sources always give the same result
 	paths := make([]string, 0, len(pkg.Imports))
@@ -96,9 +99,6 @@ func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 
 	for _, path := range paths {
 		importedPkg := pkg.Imports[path]
-		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
-			result = append(result, pkg)
-		}
 		if _, ok := pkgCache[importedPkg.ID]; ok {
 			continue
 		}
@@ -107,6 +107,21 @@ func filterPkgsRec(pkg *packages.Package) []*packages.Package {
 	return result
 }
 
+// usesGotext checks whether a package imports gotext, be it by way of another one,
+// whose values can be of gotext's types.
+func usesGotext(pkg *packages.Package, checked map[string]bool) bool {
+	checked[pkg.ID] = true
+	for _, importedPkg := range pkg.Imports {
+		if importedPkg.ID == "github.com/leonelquinteros/gotext" {
+			return true
+		}
+		if !checked[importedPkg.ID] && usesGotext(importedPkg, checked) {
+			return true
+		}
+	}
+	return false
+}
+
 // GoFile handles the parsing of one go file
 type GoFile struct {
 	parser.GoFile
-- 
2.43.0


From 0e37a9b0e3de5f23927472c169e0d2ddf00d297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 44/51] fix: release the package's lock when loading a locale
 panics

---
 gotext.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gotext.go b/gotext.go
index 607af68..81963c9 100644
--- a/gotext.go
+++ b/gotext.go
@@ -66,6 +66,7 @@ func init() {
 // It is called when trying to use Get or GetD methods.
 func loadLocales(rebuildCache bool) {
 	globalConfig.Lock()
+	defer globalConfig.Unlock()
 
 	if globalConfig.locales == nil || rebuildCache {
 		var locales []*Locale
@@ -81,8 +82,6 @@ func loadLocales(rebuildCache bool) {
 		}
 		locale.SetDomain(globalConfig.domain)
 	}
-
-	globalConfig.Unlock()
 }
 
 // GetDomain is the domain getter for the package configuration
-- 
2.43.0


From 5ca76f7efa8fd9291d7bea7229738817c9cfd0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:13 +0000
Subject: [PATCH 45/51] fix: leave the configuration alone when SetLocales
 panics

---
 gotext.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gotext.go b/gotext.go
index 81963c9..8486721 100644
--- a/gotext.go
+++ b/gotext.go
@@ -191,14 +191,17 @@ func SetLocales(locales []*Locale) {
 	globalConfig.Lock()
 	defer globalConfig.Unlock()
 
-	globalConfig.locales = locales
-	globalConfig.library, _ = locales[0].location()
-	globalConfig.domain = locales[0].GetDomain()
+	library, _ := locales[0].location()
+	domain := locales[0].GetDomain()
 
 	var languages []string
 	for _, locale := range locales {
 		languages = append(languages, locale.GetLanguage())
 	}
+
+	globalConfig.locales = locales
+	globalConfig.library = library
+	globalConfig.domain = domain
 	globalConfig.languages = languages
 }
 
-- 
2.43.0


From b3a2abca2bb5bf5f5425b490cbb6e64644bc2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:07 +0000
Subject: [PATCH 46/51] fix: leave a locale as it was when restoring it from
 binary fails

---
 locale.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/locale.go b/locale.go
index faa8fc4..37b06e2 100644
--- a/locale.go
+++ b/locale.go
@@ -481,15 +481,8 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 		return err
 	}
 
-	l.Lock()
-	defer l.Unlock()
-
-	l.defaultDomain = obj.DefaultDomain
-	l.lang = obj.Lang
-	l.path = obj.Path
-
-	// Decode Domains
-	l.Domains = make(map[string]Translator)
+	// Decode Domains, before anything is changed
+	domains := make(map[string]Translator, len(obj.Domains))
 	for k, v := range obj.Domains {
 		var tr TranslatorEncoding
 		buff := bytes.NewBuffer(v)
@@ -499,8 +492,16 @@ func (l *Locale) UnmarshalBinary(data []byte) error {
 			return err
 		}
 
-		l.Domains[k] = tr.GetTranslator()
+		domains[k] = tr.GetTranslator()
 	}
 
+	l.Lock()
+	defer l.Unlock()
+
+	l.defaultDomain = obj.DefaultDomain
+	l.lang = obj.Lang
+	l.path = obj.Path
+	l.Domains = domains
+
 	return nil
 }
-- 
2.43.0


From 391bf3880afcc2d7a8be8ce75252373d93e4bd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 47/51] fix: order source references by file and line when the
 path has colons

---
 domain.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain.go b/domain.go
index 7f36d02..70ae356 100644
--- a/domain.go
+++ b/domain.go
@@ -627,8 +627,9 @@ type SourceReference struct {
 func extractPathAndLine(ref string) (string, int) {
 	var path string
 	var line int
-	colonIdx := strings.IndexRune(ref, ':')
-	if colonIdx >= 0 {
+	// A path may have colons itself, and no line behind it
+	colonIdx := strings.LastIndexByte(ref, ':')
+	if colonIdx >= 0 && strings.Trim(ref[colonIdx+1:], "0123456789") == "" {
 		path = ref[:colonIdx]
 		line, _ = strconv.Atoi(ref[colonIdx+1:])
 	} else {
-- 
2.43.0


From dc83f1dd75c14eca777ff7437366add02f6ffd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:56 +0000
Subject: [PATCH 48/51] fix: keep the whole message of a MO entry that contains
 the context separator

---
 mo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo.go b/mo.go
index a7a4ec3..63d2940 100644
--- a/mo.go
+++ b/mo.go
@@ -307,7 +307,8 @@ func (mo *Mo) addTranslation(msgid, msgstr []byte) {
 	var msgctxt []byte
 	var msgidPlural []byte
 
-	d := bytes.Split(msgid, []byte(EotSeparator))
+	// Only the first separator ends the context, the text may contain more
+	d := bytes.SplitN(msgid, []byte(EotSeparator), 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
-- 
2.43.0


From 4128cf9643bfb17f661b26b01068d4f643af5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:56 +0000
Subject: [PATCH 49/51] fix: don't take an empty language for that of every
 locale without files

---
 gotext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gotext.go b/gotext.go
index 8486721..7080934 100644
--- a/gotext.go
+++ b/gotext.go
@@ -389,7 +389,8 @@ func isTranslatedAny(dom string, langs []string, check func(*Locale) bool) bool
 		lang = SimplifiedLocale(lang)
 
 		for _, locale := range locales {
-			if lang != locale.GetLanguage() && lang != locale.GetActualLanguage(dom) {
+			// Without a file there is no actual language that could be asked for
+			if lang != locale.GetLanguage() && (lang == "" || lang != locale.GetActualLanguage(dom)) {
 				continue
 			}
 			if !locale.hasDomain(dom) {
-- 
2.43.0


From 144a5fe49e639e11cfa714f58b0e68bc03744958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:56 +0000
Subject: [PATCH 50/51] fix: xgotext extracts from an input directory that is
 given as a link

---
 cli/xgotext/parser/dir/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/parser/dir/parser.go b/cli/xgotext/parser/dir/parser.go
index 2125c01..a0b5024 100644
--- a/cli/xgotext/parser/dir/parser.go
+++ b/cli/xgotext/parser/dir/parser.go
@@ -40,8 +40,13 @@ func ParseDir(dirPath, basePath string, data *parser.DomainMap) error {
 // ParseDirRec calls all known parser for each directory
 func ParseDirRec(dirPath string, exclude []string, data *parser.DomainMap, verbose bool) error {
 	dirPath, _ = filepath.Abs(dirPath)
+	// Walk doesn't follow a link, not even as its root
+	dirPath, err := filepath.EvalSymlinks(dirPath)
+	if err != nil {
+		return err
+	}
 
-	err := filepath.Walk(dirPath, func(path string, info os.FileInfo, err error) error {
+	err = filepath.Walk(dirPath, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 405fb5446a03c00eaf8dfa77a1557981ef95ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:52 +0000
Subject: [PATCH 51/51] fix: don't switch the loaded locales to a domain they
 haven't loaded yet

---
 gotext.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/gotext.go b/gotext.go
index 7080934..b862ec7 100644
--- a/gotext.go
+++ b/gotext.go
@@ -105,11 +105,6 @@ func GetDomain() string {
 func SetDomain(dom string) {
 	globalConfig.Lock()
 	globalConfig.domain = dom
-	if globalConfig.locales != nil {
-		for _, locale := range globalConfig.locales {
-			locale.SetDomain(dom)
-		}
-	}
 	globalConfig.Unlock()
 
 	loadLocales(true)
-- 
2.43.0

