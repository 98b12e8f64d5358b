From 33116c9ce587c8f30d3ffd5f549e72acfe5dfae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:38 +0000
Subject: [PATCH 01/58] =?UTF-8?q?fix:=20classify=20U+00C0=20(=C3=80)=20as?=
 =?UTF-8?q?=20a=20letter?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The range was documented as À-Ö but started from Á, so a word containing À
was split in the tokenizer.
---
 libvoikko/src/character/charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/character/charset.cpp b/libvoikko/src/character/charset.cpp
index 00c3a5e..681c668 100644
--- a/libvoikko/src/character/charset.cpp
+++ b/libvoikko/src/character/charset.cpp
@@ -42,7 +42,7 @@ namespace libvoikko {
 char_type get_char_type(wchar_t c) {
 	if ((c >= 0x41 && c <= 0x5A) || /* A-Z */
 	    (c >= 0x61 && c <= 0x7A) || /* a-z */
-	    (c >= 0xC1 && c <= 0xD6) || /* À-Ö */
+	    (c >= 0xC0 && c <= 0xD6) || /* À-Ö */
 	    (c >= 0xD8 && c <= 0xF6) || /* Ø-ö */
 	    (c >= 0x00F8 && c <= 0x02AF) || /* ø-ɏ */
 	    (c >= 0x0400 && c <= 0x0481) || /* Ѐ-ҁ - Cyrillic */
-- 
2.43.0


From 7d4e5a01dc409159a0a59f8a6408bc88c0cfd434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:05 +0000
Subject: [PATCH 02/58] fix: accept the at sign as an ordinary symbol in
 transducers

---
 libvoikko/src/fst/UnweightedTransducer.cpp |  2 +-
 libvoikko/src/fst/WeightedTransducer.cpp   |  2 +-
 libvoikko/src/tools/voikkovfstc.cpp        | 13 +++++++------
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..0ba80b3 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -159,7 +159,7 @@ namespace libvoikko { namespace fst {
 			else {
 				string symbol(filePtr);
 				if (firstNormalChar == 0) {
-					if (symbol[0] == '@') {
+					if (symbol[0] == '@' && symbol.length() > 1) {
 						symbolToDiacritic.push_back(getDiacriticOperation(symbol, features, values));
 					}
 					else {
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..f3d0eec 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -165,7 +165,7 @@ namespace libvoikko { namespace fst {
 			else {
 				string symbol(filePtr);
 				if (firstNormalChar == 0) {
-					if (symbol[0] == '@') {
+					if (symbol[0] == '@' && symbol.length() > 1) {
 						symbolToDiacritic.push_back(getDiacriticOperation(symbol, features, values));
 					}
 					else {
diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index b2aa41a..d05a105 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -193,6 +193,10 @@ static void setTarget(WeightedTransition & t, vector<uint32_t> & stateOrdinalToO
 	t.targetState = stateOrdinalToOffset[targetStateOrdinal];
 }
 
+static bool isFlagDiacritic(const string & symbol) {
+	return symbol[0] == '@' && symbol.length() > 1;
+}
+
 struct compareSymbolsForLookupOrder {
 	bool operator()(Symbol const & a, Symbol const & b) const {
 		if (a.text == b.text) {
@@ -204,11 +208,8 @@ struct compareSymbolsForLookupOrder {
 		if (b.text == "") {
 			return false;
 		}
-		if (a.text[0] == '@' && b.text[0] != '@') {
-			return true;
-		}
-		if (b.text[0] == '@' && a.text[0] != '@') {
-			return false;
+		if (isFlagDiacritic(a.text) != isFlagDiacritic(b.text)) {
+			return isFlagDiacritic(a.text);
 		}
 		if (a.text[0] == '[' && b.text[0] != '[') {
 			return false;
@@ -216,7 +217,7 @@ struct compareSymbolsForLookupOrder {
 		if (b.text[0] == '[' && a.text[0] != '[') {
 			return true;
 		}
-		if (a.text[0] == '[' || a.text[0] == '@') {
+		if (a.text[0] == '[' || isFlagDiacritic(a.text)) {
 			return a.text.substr(1) < b.text.substr(1);
 		}
 		return a.text < b.text;
-- 
2.43.0


From 2381c87fe6eb7c5252ddf7a35afd1223ad2dc11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:05 +0000
Subject: [PATCH 03/58] fix: try remaining flag diacritics at the end of input
 in weighted transducers

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index f3d0eec..c64f507 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -360,7 +360,7 @@ namespace libvoikko { namespace fst {
 					}
 					goto nextInMainLoop;
 				}
-				else if (currentTransition->symIn > inputSym) {
+				else if (inputSym != 0 && currentTransition->symIn > inputSym) {
 					break;
 				}
 				else if (tc >= 1 && currentTransition->symIn >= firstNormalChar &&
-- 
2.43.0


From e8fa583858e1867c6f88e76fa91e032ffee47e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 04/58] fix: reset flag diacritics when a new transducer lookup
 is started

---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index 0ba80b3..cf163aa 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// previous traversal may have been abandoned before all flags were restored
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From 48bde49f3a24a5e381ac06ae971343d201a165c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:53 +0000
Subject: [PATCH 05/58] fix: do not sign extend weights when changing byte
 order

---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 libvoikko/src/tools/voikkovfstc.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index c64f507..ed0e0f2 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -63,7 +63,7 @@ namespace libvoikko { namespace fst {
 	}
 	
 	static int16_t swap(int16_t x) {
-		return (x>>8) | (x<<8);
+		return (int16_t) swap((uint16_t) x);
 	}
 	
 	static uint32_t swap(uint32_t x) {
diff --git a/libvoikko/src/tools/voikkovfstc.cpp b/libvoikko/src/tools/voikkovfstc.cpp
index d05a105..5f2cc8c 100644
--- a/libvoikko/src/tools/voikkovfstc.cpp
+++ b/libvoikko/src/tools/voikkovfstc.cpp
@@ -56,7 +56,7 @@ static uint16_t swap(uint16_t x) {
 }
 
 static int16_t swap(int16_t x) {
-	return (x>>8) | (x<<8);
+	return (int16_t) swap((uint16_t) x);
 }
 
 static uint16_t swapIf(bool doSwap, uint16_t x) {
-- 
2.43.0


From 080477294d040f8d470ddaf29b94ba0b72e3b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 06/58] fix: handle readings with empty output in the Finnish
 analyzer

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index 94ccc78..eb1e085 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -893,7 +893,7 @@ void FinnishVfstAnalyzer::parseBasicAttributes(Analysis * analysis, const wchar_
 	bool convertNimiLaatusanaToLaatusana = false;
 	bool bcPassed = false;
 	bool classSet = false;
-	for (size_t i = fstLen - 1; i >= 2; i--) {
+	for (size_t i = fstLen; i-- > 2; ) {
 		if (fstOutput[i] == L']') {
 			size_t j = i;
 			while (j >= 1) {
-- 
2.43.0


From b7181b9a3e6668bd0727a91da7c74d47198001e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:21 +0000
Subject: [PATCH 07/58] fix: reserve enough space for the structure of an
 analysed word

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index eb1e085..b474fd4 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -169,7 +169,7 @@ static inline void decreaseCharsMissing(size_t & charsMissing, size_t charsSeen,
 }
 
 static wchar_t * parseStructure(const wchar_t * fstOutput, size_t wlen) {
-	wchar_t * structure = new wchar_t[wlen * 2 + 1];
+	wchar_t * structure = new wchar_t[wlen * 2 + 2];
 	structure[0] = L'=';
 	size_t outputLen = wcslen(fstOutput);
 	size_t structurePos = 1;
-- 
2.43.0


From e7fb4ca32f457bbb8ae49c54ecc996307f9a6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:14 +0000
Subject: [PATCH 08/58] fix: list the positive degree among the values of
 COMPARISON

---
 libvoikko/src/morphology/FinnishVfstAnalyzer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
index b474fd4..223224a 100644
--- a/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/FinnishVfstAnalyzer.cpp
@@ -1129,7 +1129,9 @@ std::list<const wchar_t *> FinnishVfstAnalyzer::getAttributeValues(const char *
 		return valuesFromMap(numberMap);
 	}
 	if (attribute == "COMPARISON") {
-		return valuesFromMap(comparisonMap);
+		list<const wchar_t *> values = valuesFromMap(comparisonMap);
+		values.push_front(L"positive"); // not marked in the lexicon
+		return values;
 	}
 	if (attribute == "FOCUS") {
 		return valuesFromMap(focusMap);
-- 
2.43.0


From 2508213c11225a053caa9aa966fa1ba4880e73b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 09/58] fix: avoid exponential time when optional hyphens are
 removed in spelling

---
 .../FinnishSpellerTweaksWrapper.cpp           | 23 +++++++++++++++----
 .../FinnishSpellerTweaksWrapper.hpp           |  6 ++++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
index 869fbe0..50d7469 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.cpp
@@ -50,7 +50,19 @@ FinnishSpellerTweaksWrapper::FinnishSpellerTweaksWrapper(Speller * speller, Anal
 	hyphenator->setIgnoreDot(true);
 }
 
-spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen) {
+// Same parts are reached through many paths when optional hyphens are removed, each of them is spelled only once.
+spellresult FinnishSpellerTweaksWrapper::spellPart(const wchar_t * word, size_t wlen, PartResults & partResults) {
+	std::wstring part(word, wlen);
+	PartResults::const_iterator it = partResults.find(part);
+	if (it != partResults.end()) {
+		return it->second;
+	}
+	spellresult result = spellWithoutSoftHyphen(word, wlen, partResults);
+	partResults[part] = result;
+	return result;
+}
+
+spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t * word, size_t wlen, PartResults & partResults) {
 	spellresult result_with_border = SPELL_FAILED;
 	spellresult result_without_border = SPELL_FAILED;
 	
@@ -74,7 +86,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		    buffer[leading_len] != L'-') {
 			/* All hyphens are optional */
 			/* FIXME: deep recursion */
-			spellresult spres = spellWithoutSoftHyphen(buffer, wlen - 1);
+			spellresult spres = spellPart(buffer, wlen - 1, partResults);
 			if (spres == SPELL_OK) {
 				delete[] buffer;
 				return spres;
@@ -100,7 +112,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 		// "ja-sana" and such are valid if "ja" is any valid word and "sana" has MALAGA_VAPAA_JALKIOSA=true
 		for (size_t i = wlen - 2; i > 0; --i) {
 			if (word[i] == L'-') {
-				spellresult leadingResult = spell(word, i);
+				spellresult leadingResult = spellPart(word, i, partResults);
 				if (leadingResult != SPELL_FAILED) {
 					list<Analysis *> * trailingAnalyses = analyzer->analyze(word + i + 1, wlen - (i + 1), false);
 					list<Analysis *>::const_iterator it = trailingAnalyses->begin();
@@ -174,6 +186,7 @@ spellresult FinnishSpellerTweaksWrapper::spellWithoutSoftHyphen(const wchar_t *
 }
 
 spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen) {
+	PartResults partResults;
 	const wchar_t * softHyphen = wmemchr(word, L'\u00AD', wlen);
 	if (softHyphen) {
 		wchar_t * buffer = new wchar_t[wlen];
@@ -191,7 +204,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 			}
 		}
 		buffer[j] = L'\0';
-		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j);
+		spellresult resultWoShy = spellWithoutSoftHyphen(buffer, j, partResults);
 		if (resultWoShy != SPELL_FAILED) {
 			// check if positions of all soft hyphens are acceptable
 			char * hyphenPositions = hyphenator->allPossibleHyphenPositions(buffer, j);
@@ -211,7 +224,7 @@ spellresult FinnishSpellerTweaksWrapper::spell(const wchar_t * word, size_t wlen
 		}
 		return resultWoShy;
 	} else {
-		return spellWithoutSoftHyphen(word, wlen);
+		return spellWithoutSoftHyphen(word, wlen, partResults);
 	}
 }
 
diff --git a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
index 7367fe3..13fa91d 100644
--- a/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
+++ b/libvoikko/src/spellchecker/FinnishSpellerTweaksWrapper.hpp
@@ -33,6 +33,8 @@
 #include "morphology/Analyzer.hpp"
 #include "setup/setup.hpp"
 #include "hyphenator/AnalyzerToFinnishHyphenatorAdapter.hpp"
+#include <map>
+#include <string>
 
 namespace libvoikko { namespace spellchecker {
 
@@ -47,7 +49,9 @@ class FinnishSpellerTweaksWrapper : public Speller {
 		spellresult spell(const wchar_t * word, size_t wlen);
 		void terminate();
 	private:
-		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen);
+		typedef std::map<std::wstring, spellresult> PartResults;
+		spellresult spellWithoutSoftHyphen(const wchar_t * word, size_t wlen, PartResults & partResults);
+		spellresult spellPart(const wchar_t * word, size_t wlen, PartResults & partResults);
 		Speller * const speller;
 		morphology::Analyzer * const analyzer;
 		hyphenator::AnalyzerToFinnishHyphenatorAdapter * hyphenator;
-- 
2.43.0


From c13d220eee20a383ca792a25e9cef41ad677f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:13 +0000
Subject: [PATCH 10/58] fix: do not give the same suggestion twice

---
 libvoikko/src/spellchecker/suggestion/SuggestionStatus.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionStatus.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionStatus.cpp
index 9ea998c..0087aa4 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionStatus.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionStatus.cpp
@@ -27,6 +27,7 @@
  *********************************************************************************/
 
 #include "spellchecker/suggestion/SuggestionStatus.hpp"
+#include <cwchar>
 
 namespace libvoikko { namespace spellchecker { namespace suggestion {
 
@@ -71,6 +72,12 @@ void SuggestionStatus::setMaxCost(size_t maxCost) {
 }
 
 void SuggestionStatus::addSuggestion(const wchar_t * newSuggestion, int priority) {
+	for (size_t i = 0; i < suggestionCount; i++) {
+		if (wcscmp(suggestions[i].word, newSuggestion) == 0) {
+			delete[] newSuggestion;
+			return;
+		}
+	}
 	if (suggestionCount < maxSuggestions) {
 		int finalPriority = priority * (suggestionCount + 5);
 		//std::wcerr << L"Suggestion " << newSuggestion;
-- 
2.43.0


From 4acddf33ab32aa32f2a9ab8e927fbc8dc1b26579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:13 +0000
Subject: [PATCH 11/58] fix: give no suggestions when the normalised word is a
 single character

---
 libvoikko/src/spellchecker/suggestions.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..28ffc71 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -95,6 +95,10 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
-- 
2.43.0


From 259e1b003e49797a6f75e1d982e14a0b0336f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 12/58] fix: apply the first upper case option in the same way
 to words of mixed case

---
 libvoikko/src/spellchecker/spell.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/spellchecker/spell.cpp b/libvoikko/src/spellchecker/spell.cpp
index 9977fbf..0d77efe 100644
--- a/libvoikko/src/spellchecker/spell.cpp
+++ b/libvoikko/src/spellchecker/spell.cpp
@@ -160,11 +160,12 @@ VOIKKOEXPORT int voikkoSpellUcs4(VoikkoHandle * voikkoOptions, const wchar_t * w
 	
 	/* Check words that require exact captialisation */
 	if (caps == CT_COMPLEX || caps == CT_NO_LETTERS) {
+		bool firstUpper = SimpleChar::isUpper(nword[0]);
 		wcsncpy(buffer, nword, nchars);
 		buffer[0] = SimpleChar::lower(buffer[0]);
 		sres = hyphenAwareSpell(voikkoOptions, buffer, nchars);
-		if (sres == SPELL_OK ||
-		    (sres == SPELL_CAP_FIRST && voikkoOptions->accept_first_uppercase && SimpleChar::isUpper(nword[0]))) {
+		if ((sres == SPELL_OK && (voikkoOptions->accept_first_uppercase || !firstUpper)) ||
+		    (sres == SPELL_CAP_FIRST && firstUpper)) {
 			result = VOIKKO_SPELL_OK;
 		}
 		else {
@@ -173,8 +174,8 @@ VOIKKOEXPORT int voikkoSpellUcs4(VoikkoHandle * voikkoOptions, const wchar_t * w
 		if (result == VOIKKO_SPELL_FAILED && dot_index != -1) { /* remove dot */
 			buffer[dot_index] = L'\0';
 			sres = hyphenAwareSpell(voikkoOptions, buffer, realChars);
-			if (sres == SPELL_OK ||
-			    (sres == SPELL_CAP_FIRST && voikkoOptions->accept_first_uppercase && SimpleChar::isUpper(nword[0]))) {
+			if ((sres == SPELL_OK && (voikkoOptions->accept_first_uppercase || !firstUpper)) ||
+			    (sres == SPELL_CAP_FIRST && firstUpper)) {
 				result = VOIKKO_SPELL_OK;
 			}
 		}
-- 
2.43.0


From 6e85913480bd9e6a2397316f4b57711f073678d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:52 +0000
Subject: [PATCH 13/58] fix: use the length of the original word when undoing
 normalisation of suggestions

---
 libvoikko/src/spellchecker/suggestions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 28ffc71..dc58113 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -150,7 +150,7 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 	/* Undo character set normalisation */
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, wcslen(word), &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From 852764862bb53d0fbf59475687c56052bf466572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:37 +0000
Subject: [PATCH 14/58] fix: remove suggestions that become equal when case is
 changed or a dot is added

---
 libvoikko/src/spellchecker/suggestions.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index dc58113..44211dd 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -147,6 +147,22 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		}
 	}
 
+	/* Suggestions may have become equal when dots were added or character case was changed */
+	size_t uniqueCount = 0;
+	for (size_t i = 0; suggestions[i] != 0; i++) {
+		size_t j = 0;
+		while (j < uniqueCount && wcscmp(suggestions[j], suggestions[i]) != 0) {
+			j++;
+		}
+		if (j == uniqueCount) {
+			suggestions[uniqueCount++] = suggestions[i];
+		}
+		else {
+			delete[] suggestions[i];
+		}
+	}
+	suggestions[uniqueCount] = 0;
+
 	/* Undo character set normalisation */
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-- 
2.43.0


From 4ce2e2d7e987d194aa7bbacec8b7534befcc57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:22 +0000
Subject: [PATCH 15/58] fix: grammar checker cache ignored the length of the
 text

Grammar errors were looked up by comparing null terminated strings, although the
interface takes a buffer and its length. With a buffer not terminated exactly at
the given length no errors were ever returned, and memory after it was read.
---
 libvoikko/src/grammar/GcCache.cpp        | 2 ++
 libvoikko/src/grammar/GcCache.hpp        | 3 +++
 libvoikko/src/grammar/GrammarChecker.cpp | 6 ++++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GcCache.cpp b/libvoikko/src/grammar/GcCache.cpp
index afd4ebd..f6e0133 100644
--- a/libvoikko/src/grammar/GcCache.cpp
+++ b/libvoikko/src/grammar/GcCache.cpp
@@ -33,12 +33,14 @@ namespace libvoikko { namespace grammar {
 
 GcCache::GcCache() :
 	paragraph(0),
+	paragraphLength(0),
 	firstError(0) {
 }
 
 void GcCache::clear() {
 	delete[] paragraph;
 	paragraph = 0;
+	paragraphLength = 0;
 	CacheEntry * entry = firstError;
 	while (entry) {
 		CacheEntry * next = entry->nextError;
diff --git a/libvoikko/src/grammar/GcCache.hpp b/libvoikko/src/grammar/GcCache.hpp
index 4272c3d..884a4f8 100644
--- a/libvoikko/src/grammar/GcCache.hpp
+++ b/libvoikko/src/grammar/GcCache.hpp
@@ -50,6 +50,9 @@ class GcCache {
 	/** Null terminated string containing the paragraph text. */
 	wchar_t * paragraph;
 	
+	/** Number of characters in the paragraph text. */
+	size_t paragraphLength;
+	
 	/** First error in linked list. */
 	grammar::CacheEntry * firstError;
 };
diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..48eccfd 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,12 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (cache.paragraphLength != textlen ||
+	    wmemcmp(cache.paragraph, text, textlen) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
@@ -67,6 +68,7 @@ void GrammarChecker::paragraphToCache(const wchar_t * text, size_t textlen) {
 	}
 	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));
 	cache.paragraph[textlen] = L'\0';
+	cache.paragraphLength = textlen;
 	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);
 	if (!para) {
 		return;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From 142be7bbfdd20cf68c80f319c45a34987e65f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:49 +0000
Subject: [PATCH 16/58] fix: forget cached spelling results when hyphen options
 change

Results computed with the options to accept extra or missing hyphens stayed in the
speller cache after the option was switched off.
---
 libvoikko/src/setup/setup.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..1d12958 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,20 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+/** Sets an option that affects the results stored in speller cache. */
+static int setCachedSpellingOption(VoikkoHandle * handle, int value, int * option) {
+	int newValue = value ? 1 : 0;
+	if (*option != newValue) {
+		*option = newValue;
+		if (handle->spellerCache) {
+			int sizeParam = handle->spellerCache->getSizeParam();
+			delete handle->spellerCache;
+			handle->spellerCache = new spellchecker::SpellerCache(sizeParam);
+		}
+	}
+	return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +123,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setCachedSpellingOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setCachedSpellingOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
-- 
2.43.0


From 6e3e85c1e0b62381a2166e9a4cc3a5f02ff8a6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:55 +0000
Subject: [PATCH 17/58] fix: keep dictionary path when grammar backend is given
 explicitly

A dictionary naming its grammar backend could not be opened, because autocorr.vfst
was looked for in the root directory.
---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index dbe774d..b5034ae 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -109,7 +109,7 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			hyphenatorBackend = BackendProperties(line.substr(20), true);
 		}
 		else if (line.find("Grammar-Backend: ") == 0) {
-			grammarBackend = BackendProperties(line.substr(17), true);
+			grammarBackend = BackendProperties(line.substr(17), path, true);
 		}
 	}
 	file.close();
-- 
2.43.0


From 87f731d0f949d3e5c5c423390280a42d83009b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:12 +0000
Subject: [PATCH 18/58] fix: crash when hyphenating words of dictionaries
 without word structure

The default hyphenator dereferenced a null pointer for every word known to a
dictionary with plain vfst morphology.
---
 .../src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
index 9a4211c..08731d9 100644
--- a/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
+++ b/libvoikko/src/hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp
@@ -290,6 +290,9 @@ void AnalyzerToFinnishHyphenatorAdapter::interpretAnalysis(const Analysis * anal
 	const wchar_t * structure = analysis->getValue(Analysis::Key::STRUCTURE);
 	const wchar_t * structurePtr = structure;
 	memset(buffer, ' ', len);
+	if (!structure) {
+		return; // no information about compound structure
+	}
 	if (*structurePtr == L'=') {
 		structurePtr++;
 	}
-- 
2.43.0


From 18aa242c76cfbd966ea04d5b4da976730e13045d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:56 +0000
Subject: [PATCH 19/58] fix: position and length of autocorrect errors after
 collapsed whitespace

Positions in the sentence were compared with positions in the paragraph and original
positions with normalised ones, so that after multiple spaces or soft hyphens errors
were lost or had a wrong length. A token was leaked in overlong sentences.
---
 .../VfstAutocorrectCheck.cpp                  | 33 ++++++-------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
index c39482c..84b9f27 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp
@@ -88,6 +88,9 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		}
 		else {
 			size_t skippedChars = 0;
+			if (sentenceLengthUtf + token->tokenlen >= BUFFER_SIZE) {
+				return false; // sentence is unreasonably long
+			}
 			wchar_t * tokenStr;
 			if (lowerFirst && i == 0) {
 				tokenStr = utils::StringUtils::copy(token->str);
@@ -96,9 +99,6 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 			else {
 				tokenStr = token->str;
 			}
-			if (sentenceLengthUtf + token->tokenlen >= BUFFER_SIZE) {
-				return false; // sentence is unreasonably long
-			}
 			for (size_t i = 0; i < token->tokenlen; i++) {
 				if (::wcschr(L"\u00AD", tokenStr[i])) {
 					skippedChars++;
@@ -128,33 +128,20 @@ bool VfstAutocorrectCheck::check(VoikkoHandle * options, const Sentence * senten
 		transducer->prepare(configuration, inputBuffer + position, sentenceLengthUtf - position);
 		size_t prefixLength = 0;
 		if (transducer->nextPrefix(configuration, outputBuffer, BUFFER_SIZE, &prefixLength)) {
-			bool endAtBoundary = false;
-			for (vector<size_t>::iterator p = ucsNormalizedPositions.begin(); p != ucsNormalizedPositions.end(); ++p) {
-				if (ucsPosition + prefixLength == *p) {
-					endAtBoundary = true;
+			size_t errorLength = 0;
+			for (size_t n = 0; n < ucsNormalizedPositions.size(); n++) {
+				if (position + prefixLength == ucsNormalizedPositions[n]) {
+					errorLength = ucsOriginalPositions[n] - ucsPosition;
 					break;
 				}
 			}
-			if (!endAtBoundary) {
+			if (!errorLength) {
 				continue; // end is not at word boundary
 			}
 			CacheEntry * e = new CacheEntry(1);
 			e->error.setErrorCode(GCERR_INVALID_SPELLING);
-			size_t startPos = sentence->pos + ucsPosition;
-			e->error.setStartPos(startPos);
-			size_t lengthCorrection = 0;
-			for (size_t n = 0; n < ucsOriginalPositions.size(); n++) {
-				size_t oPos = ucsOriginalPositions[n];
-				size_t nPos = ucsNormalizedPositions[n];
-				if (oPos <= startPos) {
-					lengthCorrection = oPos - nPos;
-				}
-				if (nPos > startPos + prefixLength) {
-					lengthCorrection = (ucsOriginalPositions[n - 1] - ucsNormalizedPositions[n - 1]) - lengthCorrection;
-					break;
-				}
-			}
-			e->error.setErrorLen(prefixLength + lengthCorrection);
+			e->error.setStartPos(sentence->pos + ucsPosition);
+			e->error.setErrorLen(errorLength);
 			if (lowerFirst) {
 				outputBuffer[0] = character::SimpleChar::upper(outputBuffer[0]);
 			}
-- 
2.43.0


From a751fbb4d3dce55d40573a03343c831c7755ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 20/58] fix: UTF-8 interfaces limit word length in characters,
 not bytes

Words of at most LIBVOIKKO_MAX_WORD_CHARS characters were refused by the
byte string functions if they took more than that many bytes, although the
wide character functions handle them.
---
 libvoikko/src/hyphenator/interface.cpp     | 16 ++++++++--------
 libvoikko/src/morphology/interface.cpp     |  8 ++++----
 libvoikko/src/spellchecker/spell.cpp       |  6 +-----
 libvoikko/src/spellchecker/suggestions.cpp |  6 +-----
 4 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 8d108b3..6797e44 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -52,12 +52,12 @@ VOIKKOEXPORT char * voikkoHyphenateCstr(VoikkoHandle * options, const char * wor
 	if (word == 0) {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (word_ucs4 == 0) {
 		return 0;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (word_ucs4 == 0) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return 0;
 	}
 	char * result = voikkoHyphenateUcs4(options, word_ucs4);
@@ -73,12 +73,12 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 
 	// For now we are intentionally omitting UCS4 variant of this function and thus
 	// we perform the necessary initial conversions here.
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (!word_ucs4) {
 		return nullptr;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (!word_ucs4) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return nullptr;
 	}
 	wchar_t * hyphen_ucs4 = utils::StringUtils::ucs4FromUtf8(hyphen, strlen(hyphen));
diff --git a/libvoikko/src/morphology/interface.cpp b/libvoikko/src/morphology/interface.cpp
index be0882a..528b375 100644
--- a/libvoikko/src/morphology/interface.cpp
+++ b/libvoikko/src/morphology/interface.cpp
@@ -82,12 +82,12 @@ VOIKKOEXPORT voikko_mor_analysis ** voikkoAnalyzeWordCstr(
 	if (word == 0 || word[0] == '\0') {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
+	if (word_ucs4 == 0) {
 		return 0;
 	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
-	if (word_ucs4 == 0) {
+	if (wcslen(word_ucs4) > LIBVOIKKO_MAX_WORD_CHARS) {
+		delete[] word_ucs4;
 		return 0;
 	}
 	voikko_mor_analysis ** result = voikkoAnalyzeWordUcs4(options, word_ucs4);
diff --git a/libvoikko/src/spellchecker/spell.cpp b/libvoikko/src/spellchecker/spell.cpp
index 0d77efe..756b0e9 100644
--- a/libvoikko/src/spellchecker/spell.cpp
+++ b/libvoikko/src/spellchecker/spell.cpp
@@ -239,11 +239,7 @@ VOIKKOEXPORT int voikkoSpellCstr(VoikkoHandle * handle, const char * word) {
 	if (word == 0 || word[0] == '\0') {
 		return VOIKKO_SPELL_OK;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return VOIKKO_SPELL_FAILED;
-	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
 	if (word_ucs4 == 0) {
 		return VOIKKO_CHARSET_CONVERSION_FAILED;
 	}
diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 44211dd..34da51a 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -178,11 +178,7 @@ VOIKKOEXPORT char ** voikkoSuggestCstr(VoikkoHandle * options, const char * word
 	if (word == 0 || word[0] == '\0') {
 		return 0;
 	}
-	size_t len = strlen(word);
-	if (len > LIBVOIKKO_MAX_WORD_CHARS) {
-		return 0;
-	}
-	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word, len);
+	wchar_t * word_ucs4 = utils::StringUtils::ucs4FromUtf8(word);
 	if (word_ucs4 == 0) {
 		return 0;
 	}
-- 
2.43.0


From 1f6b1b9303c2084f62c2b54a67d2b762a24ae0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 21/58] fix: release converted strings if hyphenation fails in
 voikkoInsertHyphensCstr

---
 libvoikko/src/hyphenator/interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/hyphenator/interface.cpp b/libvoikko/src/hyphenator/interface.cpp
index 6797e44..fd7f740 100644
--- a/libvoikko/src/hyphenator/interface.cpp
+++ b/libvoikko/src/hyphenator/interface.cpp
@@ -90,6 +90,8 @@ VOIKKOEXPORT char * voikkoInsertHyphensCstr(VoikkoHandle * options, const char *
 	// Create the hyphenated form
 	char * hyphenationPattern = voikkoHyphenateUcs4(options, word_ucs4);
 	if (!hyphenationPattern) {
+		delete[] hyphen_ucs4;
+		delete[] word_ucs4;
 		return nullptr;
 	}
 	std::wstringstream hyphenated;
-- 
2.43.0


From bbc78e53379b6f14372df27d64ea7d45f382db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:02 +0000
Subject: [PATCH 22/58] fix: check the validity of UTF-8 also when only the
 start of a long text is converted

---
 libvoikko/src/utils/StringUtils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/utils/StringUtils.cpp b/libvoikko/src/utils/StringUtils.cpp
index 5b2db07..0506c6e 100644
--- a/libvoikko/src/utils/StringUtils.cpp
+++ b/libvoikko/src/utils/StringUtils.cpp
@@ -72,6 +72,9 @@ wchar_t * StringUtils::ucs4FromUtf8(const char * const original, size_t byteCoun
 	try {
 		size_t chars;
 		if (maxChars * 6 + 1 < byteCount) {
+			// Throws an exception if the part that will be converted is not valid.
+			const char * end = original;
+			utf8::advance(end, maxChars, original + byteCount);
 			chars = maxChars;
 		}
 		else {
-- 
2.43.0


From 92b990c69a88cffe205f900afa840540cea944aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:13 +0000
Subject: [PATCH 23/58] fix: recognize addresses that are longer than the first
 window in voikkoNextTokenCstr

---
 libvoikko/src/tokenizer/interface.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/tokenizer/interface.cpp b/libvoikko/src/tokenizer/interface.cpp
index c5ae741..bf11768 100644
--- a/libvoikko/src/tokenizer/interface.cpp
+++ b/libvoikko/src/tokenizer/interface.cpp
@@ -30,6 +30,7 @@
 #include "setup/setup.hpp"
 #include "utils/StringUtils.hpp"
 #include "tokenizer/Tokenizer.hpp"
+#include "character/charset.hpp"
 #include <cwchar>
 
 namespace libvoikko { namespace tokenizer {
@@ -39,14 +40,30 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenUcs4(VoikkoHandle * options,
 	return Tokenizer::nextToken(options, text, textlen, tokenlen);
 }
 
+static bool hasWhitespace(const wchar_t * text, size_t textlen) {
+	for (size_t i = 0; i < textlen; i++) {
+		if (get_char_type(text[i]) == CHAR_WHITESPACE) {
+			return true;
+		}
+	}
+	return false;
+}
+
 static enum voikko_token_type doVoikkoNextTokenCstr(VoikkoHandle * options, const char * text, size_t textlen,
-                                                           size_t * tokenlen, size_t maxChars) {
+                                                           size_t * tokenlen, size_t maxChars, bool * complete) {
+	*complete = true;
 	wchar_t * text_ucs4 = utils::StringUtils::ucs4FromUtf8(text, textlen, maxChars);
 	if (text_ucs4 == 0) {
 		return TOKEN_NONE;
 	}
+	size_t wlen = wcslen(text_ucs4);
 	voikko_token_type result =
-		voikkoNextTokenUcs4(options, text_ucs4, wcslen(text_ucs4), tokenlen);
+		voikkoNextTokenUcs4(options, text_ucs4, wlen, tokenlen);
+	if (wlen >= maxChars) {
+		// There may be more text. Recognizing an address requires looking at everything up to
+		// the next whitespace character.
+		*complete = *tokenlen + 5 < maxChars && hasWhitespace(text_ucs4, wlen);
+	}
 	delete[] text_ucs4;
 	return result;
 }
@@ -61,8 +78,9 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenCstr(VoikkoHandle * options,
 	*tokenlen = 0;
 	voikko_token_type result;
 	while (true) {
-		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);
-		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {
+		bool complete;
+		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars, &complete);
+		if (result == TOKEN_NONE || complete) {
 			break;
 		}
 		maxChars *= 2;
-- 
2.43.0


From 17b5854de9b45c4f6fe7a7da095446c039d3c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:35 +0000
Subject: [PATCH 24/58] fix: signed overflow in vowel change suggestions for
 words with many vowels

---
 .../spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
index 81c8f05..3694499 100644
--- a/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
+++ b/libvoikko/src/spellchecker/suggestion/SuggestionGeneratorVowelChange.cpp
@@ -39,7 +39,7 @@ SuggestionGeneratorVowelChange::SuggestionGeneratorVowelChange(morphology::Analy
 		morAnalyzer(morAnalyzer) {}
 
 void SuggestionGeneratorVowelChange::generate(SuggestionStatus * s) const {
-	int mask = 0;
+	unsigned int mask = 0;
 	size_t vcount = 0;
 	int pat = 1;
 	for (size_t i = 0; i < s->getWordLength(); i++)
-- 
2.43.0


From ee97301db83e580a91bb981f7bfd71d60824b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 25/58] fix: dictionaries with tags of ten characters were
 preferred over the standard variant

rfind() returns npos for them, which was equal to size() - 11.
---
 libvoikko/src/setup/DictionaryFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/DictionaryFactory.cpp b/libvoikko/src/setup/DictionaryFactory.cpp
index 6be8652..d491ed4 100644
--- a/libvoikko/src/setup/DictionaryFactory.cpp
+++ b/libvoikko/src/setup/DictionaryFactory.cpp
@@ -92,7 +92,7 @@ list<Dictionary> DictionaryFactory::findAllAvailable(const std::string & path) {
 		if (i->second.isDefault()) {
 			dicts.push_front(i->second);
 		}
-		else if (i->first.rfind("-x-standard") == i->first.size() - 11 &&
+		else if (i->second.getLanguage().getPrivateUse() == "standard" &&
 		         !DictionaryLoader::hasDefaultForLanguage(&dictMap, i->second.getLanguage().getLanguage())) {
 			dicts.push_front(i->second);
 		}
-- 
2.43.0


From f000f4ef557204b8c780189e0c96a1bc896f93e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:32 +0000
Subject: [PATCH 26/58] fix: do not list a language for grammar checking if its
 dictionaries have no grammar checker

---
 libvoikko/src/setup/V5DictionaryLoader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/setup/V5DictionaryLoader.cpp b/libvoikko/src/setup/V5DictionaryLoader.cpp
index b5034ae..487e807 100644
--- a/libvoikko/src/setup/V5DictionaryLoader.cpp
+++ b/libvoikko/src/setup/V5DictionaryLoader.cpp
@@ -109,7 +109,8 @@ Dictionary V5DictionaryLoader::dictionaryFromPath(const string & path) {
 			hyphenatorBackend = BackendProperties(line.substr(20), true);
 		}
 		else if (line.find("Grammar-Backend: ") == 0) {
-			grammarBackend = BackendProperties(line.substr(17), path, true);
+			string backend = line.substr(17);
+			grammarBackend = BackendProperties(backend, path, backend != "null");
 		}
 	}
 	file.close();
-- 
2.43.0


From 790d7464b3359d8fe4705d77081d90c2846a0e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:11 +0000
Subject: [PATCH 27/58] fix: report an error if a transducer file is empty or
 cannot be mapped

---
 libvoikko/src/fst/Transducer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 1953abf..0d6f359 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -130,12 +130,15 @@ namespace libvoikko { namespace fst {
 			}
 			
 			struct stat st;
-			fstat(fd, &st);
+			if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode) || st.st_size == 0) {
+				close(fd);
+				return 0;
+			}
 			fileLength = st.st_size;
 			
 			void * map = mmap(0, fileLength, PROT_READ, MAP_SHARED, fd, 0);
 			close(fd);
-			return map;
+			return map == MAP_FAILED ? 0 : map;
 		#endif
 		#ifdef WIN32
 			HANDLE fileHandle = CreateFile(filePath, GENERIC_READ, FILE_SHARE_READ,
-- 
2.43.0


From 388ed33f0288cb106ca4832bf9c0972dfa28fb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:32 +0000
Subject: [PATCH 28/58] fix: refuse transducer files that are cut off or
 damaged before the transition table

Such files were read beyond their end. Also unmap the file if it is refused.
---
 libvoikko/src/fst/Transducer.cpp           | 58 ++++++++++++++++++++++
 libvoikko/src/fst/Transducer.hpp           |  9 ++++
 libvoikko/src/fst/UnweightedTransducer.cpp |  5 +-
 libvoikko/src/fst/WeightedTransducer.cpp   |  5 +-
 4 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/libvoikko/src/fst/Transducer.cpp b/libvoikko/src/fst/Transducer.cpp
index 0d6f359..53d36aa 100644
--- a/libvoikko/src/fst/Transducer.cpp
+++ b/libvoikko/src/fst/Transducer.cpp
@@ -185,6 +185,64 @@ namespace libvoikko { namespace fst {
 		return filePtr[8] == 0x01;
 	}
 	
+	void Transducer::checkSymbolTable(size_t transitionSize) {
+		const char * start = static_cast<const char *>(map);
+		const char * end = start + fileLength;
+		const char * filePtr = start + 16; // skip header
+		uint16_t symbolCount;
+		memcpy(&symbolCount, filePtr, sizeof(uint16_t));
+		if (byteSwapped) {
+			symbolCount = (symbolCount >> 8) | (symbolCount << 8);
+		}
+		filePtr += sizeof(uint16_t);
+		bool flagDiacritics = true;
+		for (uint16_t i = 0; i < symbolCount; i++) {
+			const char * symbolEnd = static_cast<const char *>(memchr(filePtr, 0, end - filePtr));
+			if (!symbolEnd) {
+				throw setup::DictionaryException("Transducer file is incomplete");
+			}
+			size_t symbolLength = symbolEnd - filePtr;
+			if (i == 0) {
+				if (symbolLength != 0) {
+					throw setup::DictionaryException("Malformed symbol table");
+				}
+			}
+			else {
+				flagDiacritics = flagDiacritics && symbolLength > 1 && filePtr[0] == '@';
+				if (flagDiacritics && symbolLength <= 4) {
+					throw setup::DictionaryException("Malformed flag diacritic");
+				}
+				if (!utf8::is_valid(filePtr, symbolEnd)) {
+					throw setup::DictionaryException("Malformed symbol table");
+				}
+			}
+			filePtr = symbolEnd + 1;
+		}
+		size_t tableStart = (filePtr - start + transitionSize - 1) / transitionSize * transitionSize;
+		if (tableStart > fileLength || (fileLength - tableStart) % transitionSize != 0) {
+			throw setup::DictionaryException("Transducer file is incomplete");
+		}
+	}
+	
+	void Transducer::checkFile(bool weighted, size_t transitionSize) {
+		try {
+			if (fileLength < 16 + sizeof(uint16_t)) {
+				throw setup::DictionaryException("Transducer file is incomplete");
+			}
+			byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
+			if (isWeightedTransducerFile(static_cast<char *>(map)) != weighted) {
+				throw setup::DictionaryException(weighted ?
+					"Expected weighted but got unweighted transducer" :
+					"Expected unweighted but got weighted transducer");
+			}
+			checkSymbolTable(transitionSize);
+		}
+		catch (setup::DictionaryException &) {
+			vfstMunmap(map, fileLength);
+			throw;
+		}
+	}
+	
 	uint16_t Transducer::getFlagDiacriticFeatureCount() const {
 		return flagDiacriticFeatureCount;
 	}
diff --git a/libvoikko/src/fst/Transducer.hpp b/libvoikko/src/fst/Transducer.hpp
index 1eccc48..4d590d5 100644
--- a/libvoikko/src/fst/Transducer.hpp
+++ b/libvoikko/src/fst/Transducer.hpp
@@ -67,6 +67,15 @@ namespace libvoikko { namespace fst {
 			void vfstMunmap(void * map, size_t fileLength);
 			bool checkNeedForByteSwapping(const char * filePtr);
 			bool isWeightedTransducerFile(const char * filePtr);
+			
+			/**
+			 * Checks that the mapped file is of the expected type and complete up to the start of
+			 * transition table. Sets byteSwapped if the file needs to be byte swapped. If the file
+			 * is not usable it is unmapped and DictionaryException is thrown.
+			 */
+			void checkFile(bool weighted, size_t transitionSize);
+		private:
+			void checkSymbolTable(size_t transitionSize);
 		public:
 			uint16_t flagDiacriticFeatureCount;
 			uint16_t firstNormalChar;
diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index cf163aa..e003058 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -127,10 +127,7 @@ namespace libvoikko { namespace fst {
 		if (!map) {
 			throw setup::DictionaryException("Unweighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
-		if (isWeightedTransducerFile(static_cast<char *>(map))) {
-			throw setup::DictionaryException("Expected unweighted but got weighted transducer");
-		}
+		checkFile(false, sizeof(Transition));
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
 		}
diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index ed0e0f2..a166126 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -133,10 +133,7 @@ namespace libvoikko { namespace fst {
 			DEBUG(filePath);
 			throw setup::DictionaryException("Weighted transducer file could not be read");
 		}
-		byteSwapped = checkNeedForByteSwapping(static_cast<char *>(map));
-		if (!isWeightedTransducerFile(static_cast<char *>(map))) {
-			throw setup::DictionaryException("Expected weighted but got unweighted transducer");
-		}
+		checkFile(true, sizeof(WeightedTransition));
 		if (byteSwapped) {
 			byteSwapTransducer(map, fileLength);
 		}
-- 
2.43.0


From c0fdaa42f2c69c83232464b9119ecee66979e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:32 +0000
Subject: [PATCH 29/58] fix: release suggestion generator completely when it is
 replaced or initialization fails

---
 libvoikko/src/setup/setup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index 1d12958..7d557a0 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -114,6 +114,7 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
 			options->suggestionGenerator =
 				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
@@ -224,8 +225,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From 11612fa42a1ed697a8192cac4e2be5898254414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:32 +0000
Subject: [PATCH 30/58] fix: do not leak grammar checks if autocorrect data
 cannot be loaded

---
 libvoikko/src/grammar/FinnishRuleEngine.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/grammar/FinnishRuleEngine.cpp b/libvoikko/src/grammar/FinnishRuleEngine.cpp
index c2df81c..26bf653 100644
--- a/libvoikko/src/grammar/FinnishRuleEngine.cpp
+++ b/libvoikko/src/grammar/FinnishRuleEngine.cpp
@@ -46,15 +46,22 @@ namespace libvoikko { namespace grammar {
 
 FinnishRuleEngine::FinnishRuleEngine(VoikkoHandle * voikkoOptions) :
 	 voikkoOptions(voikkoOptions) {
+#ifdef HAVE_VFST
+	// This may fail so it needs to be created before anything else.
+	check::SentenceCheck * autocorrectCheck = nullptr;
+	if (voikkoOptions->dictionary.getGrammarBackend().getBackend() == "finnishVfst") {
+		std::string autocorrFile = voikkoOptions->dictionary.getGrammarBackend().getPath() + "/autocorr.vfst";
+		autocorrectCheck = new check::VfstAutocorrectCheck(autocorrFile);
+	}
+#endif
 	sentenceChecks.push_back(new check::MissingVerbCheck());
 	sentenceChecks.push_back(new check::NegativeVerbCheck());
 	sentenceChecks.push_back(new check::CompoundVerbCheck());
 	sentenceChecks.push_back(new check::SidesanaCheck());
 	sentenceChecks.push_back(new check::RelativePronounCheck());
 #ifdef HAVE_VFST
-	if (voikkoOptions->dictionary.getGrammarBackend().getBackend() == "finnishVfst") {
-		std::string autocorrFile = voikkoOptions->dictionary.getGrammarBackend().getPath() + "/autocorr.vfst";
-		sentenceChecks.push_back(new check::VfstAutocorrectCheck(autocorrFile));
+	if (autocorrectCheck) {
+		sentenceChecks.push_back(autocorrectCheck);
 	}
 #endif
 }
-- 
2.43.0


From 96c06cd559cd35b905c1f089478e59dfa923ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:51 +0000
Subject: [PATCH 31/58] fix: report an error instead of aborting or leaking
 when HFST data cannot be read

---
 libvoikko/src/morphology/HfstAnalyzer.cpp  | 13 ++++++++++++-
 libvoikko/src/spellchecker/HfstSpeller.cpp |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/libvoikko/src/morphology/HfstAnalyzer.cpp b/libvoikko/src/morphology/HfstAnalyzer.cpp
index e842bc5..4bc26ff 100644
--- a/libvoikko/src/morphology/HfstAnalyzer.cpp
+++ b/libvoikko/src/morphology/HfstAnalyzer.cpp
@@ -32,6 +32,7 @@
 #include "voikko_defines.h"
 #include <fstream>
 #include <ospell.h>
+#include <ol-exceptions.h>
 
 using namespace libvoikko::utils;
 
@@ -45,7 +46,17 @@ HfstAnalyzer::HfstAnalyzer(const string& s) {
 		return;
 	}
 	FILE *fd = fopen(s.c_str(), "rb");
-	t = new hfst_ospell::Transducer(fd);
+	if (!fd) {
+		throw setup::DictionaryException("HFST transducer could not be opened for reading");
+	}
+	try {
+		t = new hfst_ospell::Transducer(fd);
+	}
+	catch (hfst_ospell::OspellException& e) {
+		fclose(fd);
+		throw setup::DictionaryException("HFST transducer could not be read");
+	}
+	fclose(fd);
 
 }
 
diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 8b90407..f5c52de 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -50,6 +50,8 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 		speller->read_zhfst(zhfstFileName.c_str());
 	}
 	catch (hfst_ospell::ZHfstZipReadingError& zhzre) {
+		delete speller;
+		speller = 0;
 		throw setup::DictionaryException("Error reading ZHFST speller");
 	}
 }
-- 
2.43.0


From df4183e76f1294678469bf115e5b043a9e4701fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:15 +0000
Subject: [PATCH 32/58] fix: voikkospell -j joined threads that were never
 started when the input was short

---
 libvoikko/src/tools/voikkospell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/src/tools/voikkospell.cpp b/libvoikko/src/tools/voikkospell.cpp
index a79e248..cee0baf 100644
--- a/libvoikko/src/tools/voikkospell.cpp
+++ b/libvoikko/src/tools/voikkospell.cpp
@@ -216,6 +216,8 @@ static void handleWordMultiThread(const wchar_t * word) {
 static void finishProcessing() {
 	#ifdef HAVE_PTHREAD
 		queueNextBlock();
+		// Start from the oldest unfinished thread, there may be unused threads before it.
+		nextThread = (nextThread + threadCount - nThreadsInUse) % threadCount;
 		while (nThreadsInUse > 0) {
 			cleanupThread();
 			nextThread = (nextThread + 1) % threadCount;
-- 
2.43.0


From 41ac22aa4d92a31d37695ea1c9fee61c8f63ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:15 +0000
Subject: [PATCH 33/58] fix: voikkogc -n printed 0 as the number of every line

---
 libvoikko/src/tools/voikkogc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libvoikko/src/tools/voikkogc.cpp b/libvoikko/src/tools/voikkogc.cpp
index ed558c7..136eb39 100644
--- a/libvoikko/src/tools/voikkogc.cpp
+++ b/libvoikko/src/tools/voikkogc.cpp
@@ -250,6 +250,7 @@ int main(int argc, char ** argv) {
 
 	std::string utf8_line;
 	while (std::getline(std::cin, utf8_line)) {
+		++lineNumber;
 		if (utf8_line.empty()) continue;
 
 		const char * src = utf8_line.c_str();
-- 
2.43.0


From d0ea6d046c31532051fa16f84fe420f6ead0e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:51 +0000
Subject: [PATCH 34/58] fix: Python hyphenate crashed if the word is too long
 to be hyphenated

---
 libvoikko/python/libvoikko.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index cf5fd76..10e89de 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -795,6 +795,8 @@ class Voikko(object):
             return word
         cHyphenated = self.__lib.voikkoInsertHyphensCstr(
             self.__handle, word.encode("UTF-8"), separator.encode("UTF-8"), _boolToInt(allowContextChanges))
+        if not bool(cHyphenated):
+            return word
         hyphenated = string_at(cHyphenated)
         self.__lib.voikkoFreeCstr(cHyphenated)
         return unicode_str(hyphenated, "UTF-8")
-- 
2.43.0


From c8f722d10c1abaf64f6f746c6004f803d78ffcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:51 +0000
Subject: [PATCH 35/58] fix: Python grammarErrors crashed if the language is an
 empty string

---
 libvoikko/python/libvoikko.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index 10e89de..fed96ba 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -611,7 +611,7 @@ class Voikko(object):
     def __getGrammarError(self, cGrammarError, language):
         cErrorShortDescription = self.__lib.voikkoGetGrammarErrorShortDescription(
             cGrammarError,
-            _anyStringToUtf8(language)
+            _anyStringToUtf8(language) or b""
         )
         shortDescription = unicode_str(string_at(cErrorShortDescription), "UTF-8")
         self.__lib.voikkoFreeErrorMessageCstr(cErrorShortDescription)
-- 
2.43.0


From 13b6f7e6542357a421a17563cb1eaf18f3c7715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:51 +0000
Subject: [PATCH 36/58] fix: Python Dictionary ordering was inconsistent

---
 libvoikko/python/libvoikko.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index fed96ba..65724fc 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -111,13 +111,10 @@ class Dictionary:
     def __lt__(self, other):
         if not isinstance(other, Dictionary):
             return False
-        if self.language < other.language:
-            return True
-        if self.script < other.script:
-            return True
-        if self.variant < other.variant:
-            return True
-        return self.description < other.description
+        return (
+            (self.language, self.script, self.variant, self.description) <
+            (other.language, other.script, other.variant, other.description)
+        )
 
     def __eq__(self, other):
         return (
-- 
2.43.0


From 6f069d9ba19f67465614d3f9f3bd713ee2c9f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:29 +0000
Subject: [PATCH 37/58] fix: Python getHyphenationPattern crashed if the word
 cannot be hyphenated

---
 libvoikko/python/libvoikko.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libvoikko/python/libvoikko.py b/libvoikko/python/libvoikko.py
index 65724fc..273ba8d 100644
--- a/libvoikko/python/libvoikko.py
+++ b/libvoikko/python/libvoikko.py
@@ -782,6 +782,8 @@ class Voikko(object):
             return "".ljust(len(word))
 
         cHyphenationPattern = self.__lib.voikkoHyphenateUcs4(self.__handle, word)
+        if not bool(cHyphenationPattern):
+            return "".ljust(len(word))
         hyphenationPattern = string_at(cHyphenationPattern)
         self.__lib.voikkoFreeCstr(cHyphenationPattern)
         return unicode_str(hyphenationPattern, 'ASCII')
-- 
2.43.0


From 3e36c3f049cdfb86779f877fd64e26c03efdb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:49 +0000
Subject: [PATCH 38/58] fix: letter case of Cyrillic letters from U+04C0 to
 U+04CF

---
 libvoikko/src/character/SimpleChar.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libvoikko/src/character/SimpleChar.cpp b/libvoikko/src/character/SimpleChar.cpp
index 2c56e57..7b525a5 100644
--- a/libvoikko/src/character/SimpleChar.cpp
+++ b/libvoikko/src/character/SimpleChar.cpp
@@ -88,6 +88,11 @@ wchar_t SimpleChar::lower(wchar_t input) {
 		// Cyrillic Ѡ-Ҁ
 		return input + 1;
 	}
+	if (input == 0x04C0) return 0x04CF; // Cyrillic Ӏ
+	if (input >= 0x04C1 && input <= 0x04CE) {
+		// Cyrillic Ӂ-Ӎ
+		return input % 2 == 1 ? input + 1 : input;
+	}
 	if (input >= 0x048A && input <= 0x0526 && input % 2 == 0) {
 		// Cyrillic Ҋ-Ԧ
 		return input + 1;
@@ -151,6 +156,11 @@ wchar_t SimpleChar::upper(wchar_t input) {
 		// Cyrillic ѡ-ҁ
 		return input - 1;
 	}
+	if (input == 0x04CF) return 0x04C0; // Cyrillic ӏ
+	if (input >= 0x04C1 && input <= 0x04CE) {
+		// Cyrillic ӂ-ӎ
+		return input % 2 == 0 ? input - 1 : input;
+	}
 	if (input >= 0x048B && input <= 0x0527 && input % 2 == 1) {
 		// Cyrillic ҋ-ԧ
 		return input - 1;
-- 
2.43.0


From 9b40e9c7dd308fa006ab843d7c2c50e1eb381edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:12 +0000
Subject: [PATCH 39/58] fix: voikko_terminate crashed if no handle was open

---
 libvoikko/src/compatibility/interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/compatibility/interface.cpp b/libvoikko/src/compatibility/interface.cpp
index 0ecad1e..eae6a29 100644
--- a/libvoikko/src/compatibility/interface.cpp
+++ b/libvoikko/src/compatibility/interface.cpp
@@ -128,7 +128,7 @@ VOIKKOEXPORT const char * voikko_init(int * handle, const char * langcode, int c
 }
 
 VOIKKOEXPORT int voikko_terminate(int handle) {
-	if (handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
+	if (handles && handle >= 1 && handle < MAX_HANDLES && handles[handle]) {
 		voikkoTerminate(handles[handle]);
 		handles[handle] = 0;
 		freeHandlesIfPossible();
-- 
2.43.0


From 84c037b3bc0cc7e7ef68554d4f86acc7eee783f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:12 +0000
Subject: [PATCH 40/58] fix: weighted lookup did not restore flags when
 backtracking at a given output depth

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index a166126..e86c767 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -419,6 +419,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0


From 896c68e2a4a68dd15ef2d5cc724e388e281c015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:12 +0000
Subject: [PATCH 41/58] fix: speller cache accessed memory outside its arrays
 for invalid characters

---
 libvoikko/src/spellchecker/SpellerCache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index e21119c..c8c307e 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -58,11 +58,11 @@ static const int VOIKKO_META_OFFSETS[]  =  {0,   0, 1*16, 1*48, 1*112, 1*240,  1
  * @return integer from range [0, 2^order - 1]
  */
 static int voikko_hash(const wchar_t * word, size_t len, int order) {
-	int hash = 0;
+	unsigned int hash = 0;
 	for (size_t counter = 0; counter < len; counter++) {
-		hash = (hash * 37 + word[counter]) % (1 << order);
+		hash = (hash * 37 + static_cast<unsigned int>(word[counter])) % (1u << order);
 	}
-	return hash;
+	return static_cast<int>(hash);
 }
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
-- 
2.43.0


From ecee9ed7ae623bb9df97cb0c2e50143efaf0c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:12 +0000
Subject: [PATCH 42/58] fix: Vfst and Hfst spellers read beyond the end of
 words that are not null terminated

---
 libvoikko/src/spellchecker/HfstSpeller.cpp | 5 ++++-
 libvoikko/src/spellchecker/VfstSpeller.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index f5c52de..11b697b 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -31,6 +31,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 #include <fstream>
 #include <ospell.h>
 #include <ol-exceptions.h>
@@ -70,7 +71,9 @@ spellresult HfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		// Note that the word is not necessarily null terminated.
+		wchar_t * modifiedWord = new wchar_t[wlen];
+		wmemcpy(modifiedWord, word, wlen);
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
diff --git a/libvoikko/src/spellchecker/VfstSpeller.cpp b/libvoikko/src/spellchecker/VfstSpeller.cpp
index 02dbe4d..87bc10b 100644
--- a/libvoikko/src/spellchecker/VfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/VfstSpeller.cpp
@@ -30,6 +30,7 @@
 #include "utils/StringUtils.hpp"
 #include "character/SimpleChar.hpp"
 #include "voikko_defines.h"
+#include <cwchar>
 
 using namespace std;
 using namespace libvoikko::character;
@@ -64,7 +65,9 @@ spellresult VfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
 	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		// Note that the word is not necessarily null terminated.
+		wchar_t * modifiedWord = new wchar_t[wlen];
+		wmemcpy(modifiedWord, word, wlen);
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
-- 
2.43.0


From c245a03cd577c33532244e218c43d1fdde3b1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:02 +0000
Subject: [PATCH 43/58] fix: Java hyphenate and getHyphenationPattern threw
 NullPointerException if the word cannot be hyphenated

---
 .../src/main/java/org/puimula/libvoikko/Voikko.java    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index 0c60cf0..f835e70 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -400,7 +400,11 @@ public class Voikko {
      */
     public synchronized String getHyphenationPattern(String word) {
         requireValidHandle();
-        if (!isValidInput(word)) {
+        ByteArray cPattern = null;
+        if (isValidInput(word)) {
+            cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
+        }
+        if (cPattern == null) {
             // return string of spaces
             StringBuilder sb = new StringBuilder();
             for (int i = 0; i < word.length(); i++) {
@@ -408,7 +412,6 @@ public class Voikko {
             }
             return sb.toString();
         }
-        ByteArray cPattern = getLib().voikkoHyphenateCstr(handle, s2n(word));
         String pattern = cPattern.toString();
         getLib().voikkoFreeCstr(cPattern);
         return pattern;
@@ -440,6 +443,9 @@ public class Voikko {
         }
         ByteArray cHyphenated = getLib().voikkoInsertHyphensCstr(
                 handle, s2n(word), s2n(separator), boolToInt(allowContextChanges));
+        if (cHyphenated == null) {
+            return word;
+        }
         String hyphenated = cHyphenated.toString();
         getLib().voikkoFreeCstr(cHyphenated);
         return hyphenated;
-- 
2.43.0


From 2bc0c3d7a3427040891f82701ffa609bd270c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:02 +0000
Subject: [PATCH 44/58] fix: Java sentences were split at wrong positions if
 the text contained surrogate pairs

---
 libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index f835e70..bc47e03 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -377,7 +377,8 @@ public class Voikko {
         SizeTByReference sentenceLenByRef = new SizeTByReference();
         while (textLen > 0) {
             int sentenceTypeInt = lib.voikkoNextSentenceStartCstr(handle, textBytes, new SizeT(textLen), sentenceLenByRef);
-            int sentenceLen = sentenceLenByRef.getValue().intValue();
+            // The library counts code points
+            int sentenceLen = text.offsetByCodePoints(0, sentenceLenByRef.getValue().intValue());
             SentenceStartType sentenceType = SentenceStartType.values()[sentenceTypeInt];
             String tokenText = text.substring(0, sentenceLen);
             result.add(new Sentence(tokenText, sentenceType));
-- 
2.43.0


From dd9e29255619b86ff0db1cd7972d21b3c93ef00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:02 +0000
Subject: [PATCH 45/58] fix: Java grammar errors had wrong positions if the
 text contained surrogate pairs

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index bc47e03..dc4dee2 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -243,17 +243,18 @@ public class Voikko {
             if (cError == null) {
                 return;
             }
-            errorList.add(getGrammarError(cError, offset, language));
+            errorList.add(getGrammarError(cError, paragraph, offset, language));
             lib.voikkoFreeGrammarError(cError);
             skipErrors++;
         }
     }
 
-    private GrammarError getGrammarError(VoikkoGrammarError cError, int offset, String language) {
+    private GrammarError getGrammarError(VoikkoGrammarError cError, String paragraph, int offset, String language) {
         final Libvoikko lib = getLib();
         int errorCode = lib.voikkoGetGrammarErrorCode(cError);
-        int startPos = lib.voikkoGetGrammarErrorStartPos(cError).intValue();
-        int errorLength = lib.voikkoGetGrammarErrorLength(cError).intValue();
+        // The library counts code points
+        int startPos = paragraph.offsetByCodePoints(0, lib.voikkoGetGrammarErrorStartPos(cError).intValue());
+        int errorLength = paragraph.offsetByCodePoints(startPos, lib.voikkoGetGrammarErrorLength(cError).intValue()) - startPos;
         Pointer cSuggestions = lib.voikkoGetGrammarErrorSuggestions(cError);
         List<String> suggestions;
         if (cSuggestions == null) {
-- 
2.43.0


From 4e2df647dfd70ffbe8902a9101f15422703a08b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:02 +0000
Subject: [PATCH 46/58] fix: Java hyphenate and attributeValues were not
 synchronized

---
 .../java/src/main/java/org/puimula/libvoikko/Voikko.java      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
index dc4dee2..06c32ab 100644
--- a/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
+++ b/libvoikko/java/src/main/java/org/puimula/libvoikko/Voikko.java
@@ -438,7 +438,7 @@ public class Voikko {
      *        the hyphen will lead to other changes in the word
      * @return the given word in fully hyphenated form.
      */
-    public String hyphenate(String word, String separator, boolean allowContextChanges) {
+    public synchronized String hyphenate(String word, String separator, boolean allowContextChanges) {
         requireValidHandle();
         if (!isValidInput(word) || !isValidInput(separator)) {
             return word;
@@ -660,7 +660,7 @@ public class Voikko {
      * @return A list of possible attribute values for attribute in morphological analysis or null if
      *         the attribute does not exist or it does not have a known finite set of possible values.
      */
-    public List<String> attributeValues(String attributeName) {
+    public synchronized List<String> attributeValues(String attributeName) {
         requireValidHandle();
         if (!isValidInput(attributeName)) {
             return null;
-- 
2.43.0


From fb393b6914232b59bf1541f4c62be0cb34237578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 47/58] fix: HFST spelling and suggestions give up on words
 that cannot be encoded in UTF-8

---
 libvoikko/src/spellchecker/HfstSpeller.cpp    | 4 ++++
 libvoikko/src/spellchecker/HfstSuggestion.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libvoikko/src/spellchecker/HfstSpeller.cpp b/libvoikko/src/spellchecker/HfstSpeller.cpp
index 11b697b..bdb995d 100644
--- a/libvoikko/src/spellchecker/HfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/HfstSpeller.cpp
@@ -59,6 +59,10 @@ HfstSpeller::HfstSpeller(const string & zhfstFileName, VoikkoHandle * voikkoOpti
 
 spellresult HfstSpeller::doSpell(const wchar_t * word, size_t wlen) {
 	char * wordUtf8 = StringUtils::utf8FromUcs4(word, wlen);
+	if (!wordUtf8) {
+		// The word cannot be represented in UTF-8
+		return SPELL_FAILED;
+	}
 	spellresult result = SPELL_FAILED;
 	if (speller->spell(wordUtf8)) {
 		result = SPELL_OK;
diff --git a/libvoikko/src/spellchecker/HfstSuggestion.cpp b/libvoikko/src/spellchecker/HfstSuggestion.cpp
index 30fa466..fb530c3 100644
--- a/libvoikko/src/spellchecker/HfstSuggestion.cpp
+++ b/libvoikko/src/spellchecker/HfstSuggestion.cpp
@@ -52,6 +52,10 @@ void HfstSuggestion::generate(SuggestionStatus * s) const {
 	s->setMaxCost(s->getMaxSuggestionCount());
 	size_t wlen = s->getWordLength();
 	char * wordUtf8 = StringUtils::utf8FromUcs4(s->getWord(), wlen);
+	if (!wordUtf8) {
+		// The word cannot be represented in UTF-8
+		return;
+	}
 	set<wstring> allSuggs;
 	bool checkUppercasing = (voikko_casetype(s->getWord(), wlen) == CT_FIRST_UPPER);
 	hfst_ospell::CorrectionQueue corrections = speller_->suggest(wordUtf8);
-- 
2.43.0


From 51394f3ab60d4dd7a7602bedc6a5d6edf4826306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 48/58] fix: count characters outside BMP as two UTF-16 code
 units in the JavaScript interface

---
 libvoikko/js/libvoikko_api.js | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index a886f20..c444a50 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -34,6 +34,23 @@ var isValidInput = function(word) {
 	return word.indexOf('\0') == -1;
 }
 
+// Lengths in C interface are counted in characters, here strings consist of UTF-16 code units.
+// Returns the number of code units in given number of characters from the start of text.
+var codeUnits = function(text, characters) {
+	var units = 0;
+	while (characters > 0 && units < text.length) {
+		var first = text.charCodeAt(units++);
+		if (first >= 0xD800 && first <= 0xDBFF && units < text.length) {
+			var second = text.charCodeAt(units);
+			if (second >= 0xDC00 && second <= 0xDFFF) {
+				units++;
+			}
+		}
+		characters--;
+	}
+	return units;
+};
+
 Module["onRuntimeInitialized"] = function() {
 	if ("onLoad" in Module) {
 		Module["onLoad"](Module);
@@ -59,7 +76,6 @@ Module["init"] = function(lang, path) {
 		var textBytes = _malloc(textLengthUtf8 + 1);
 		stringToUTF8(text, textBytes, textLengthUtf8 + 1);
 		var bytesStart = 0;
-		var textStart = 0;
 		var bytesLen = textLengthUtf8;
 		var tokenLenByRef = mallocPtr();
 		while (bytesLen > 0) {
@@ -67,8 +83,8 @@ Module["init"] = function(lang, path) {
 			var tokenTypeInt = c_nextTokenCstr(handle, textBytesPosition, bytesLen, tokenLenByRef);
 			var tokenLen = getValue(tokenLenByRef, "i32");
 			var tokenType = tokenTypes[tokenTypeInt];
-			var tokenText = text.substring(textStart, textStart + tokenLen);
-			textStart += tokenText.length;
+			var tokenText = text.substring(0, codeUnits(text, tokenLen));
+			text = text.substring(tokenText.length);
 			var tokenBytes = lengthBytesUTF8(tokenText);
 			result.push({type: tokenType, text: tokenText});
 			bytesStart += tokenBytes;
@@ -125,10 +141,10 @@ Module["init"] = function(lang, path) {
 		}
 	};
 	
-	var getGrammarError = function(cError, offset, language) {
+	var getGrammarError = function(cError, paragraph, offset, language) {
 		var errorCode = c_grammarErrorCode(cError);
-		var startPos = c_grammarErrorStartPos(cError);
-		var errorLength = c_grammarErrorLength(cError);
+		var startPos = codeUnits(paragraph, c_grammarErrorStartPos(cError));
+		var errorLength = codeUnits(paragraph.substring(startPos), c_grammarErrorLength(cError));
 		var cSuggestions = c_grammarErrorSuggestions(cError);
 		var suggestions = [];
 		if (cSuggestions) {
@@ -153,7 +169,7 @@ Module["init"] = function(lang, path) {
 			if (!cError) {
 				return;
 			}
-			errorList.push(getGrammarError(cError, offset, language));
+			errorList.push(getGrammarError(cError, paragraph, offset, language));
 			c_freeGrammarError(cError);
 			skipErrors++;
 		}
@@ -286,9 +302,9 @@ Module["init"] = function(lang, path) {
 				var sentenceTypeInt = c_nextSentenceStartCstr(handle, textBytesPtr, textLen, sentenceLenByRef);
 				var sentenceLen = getValue(sentenceLenByRef, "i32");
 				var sentenceType = sentenceTypes[sentenceTypeInt];
-				var sentenceText = text.substring(0, sentenceLen);
+				var sentenceText = text.substring(0, codeUnits(text, sentenceLen));
 				result.push({"text": sentenceText, "nextStartType": sentenceType});
-				text = text.substring(sentenceLen);
+				text = text.substring(sentenceText.length);
 				var sentenceLenBytes = lengthBytesUTF8(sentenceText);
 				textBytesPtr += sentenceLenBytes;
 				textLen -= sentenceLenBytes;
-- 
2.43.0


From b5f3011459e0420fd4ac14cc546a1ec8e8b13bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:32 +0000
Subject: [PATCH 49/58] fix: JavaScript hyphenate returns the word itself when
 the library refuses to hyphenate it

---
 libvoikko/js/libvoikko_api.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/js/libvoikko_api.js b/libvoikko/js/libvoikko_api.js
index c444a50..8b71fc4 100644
--- a/libvoikko/js/libvoikko_api.js
+++ b/libvoikko/js/libvoikko_api.js
@@ -328,6 +328,9 @@ Module["init"] = function(lang, path) {
 				return word;
 			}
 			var cHyphenated = c_insertHyphensCstr(handle, word, separator, boolToInt(allowContextChanges));
+			if (!cHyphenated) {
+				return word;
+			}
 			var hyphenated = UTF8ToString(cHyphenated);
 			c_freeCstr(cHyphenated);
 			return hyphenated;
-- 
2.43.0


From a2ac708c45930870f45b9184ac741d9226843929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 50/58] fix: singular local cases of the class poika used the
 plural stem

---
 data/subst.aff | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data/subst.aff b/data/subst.aff
index 175ff75..b012c63 100644
--- a/data/subst.aff
+++ b/data/subst.aff
@@ -601,16 +601,16 @@ rules:
 nominatiivi	0	0	s
 genetiivi		ika	jan	s	ps=f
 partitiivi	0	a	s
-translatiivi	ika	jiksi	s	ps=f
-translatiivi	ika	jikse	s	ps=r
+translatiivi	ika	jaksi	s	ps=f
+translatiivi	ika	jakse	s	ps=r
 essiivi		0	na	s
-inessiivi		ika	jissa	s
-elatiivi		ika	jista	s
+inessiivi		ika	jassa	s
+elatiivi		ika	jasta	s
 illatiivi		([aeiou])	(1)(1)n	s
-adessiivi		ika	jilla	s
-ablatiivi		ika	jilta	s
-allatiivi		ika	jille	s
-abessiivi		ika	jitta	s	ps=f
+adessiivi		ika	jalla	s
+ablatiivi		ika	jalta	s
+allatiivi		ika	jalle	s
+abessiivi		ika	jatta	s	ps=f
 nominatiivi_mon	ika	jat	s	ps=f
 genetiivi_mon	a	ien	s
 genetiivi_mon	0	in	s	ps=f,prio=2
-- 
2.43.0


From 3171ae898ebc2b52ea51c16855686f37e34bea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 51/58] fix: imperative, past participle and passive past of
 nuolaista take the weak grade

---
 data/verb.aff | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/data/verb.aff b/data/verb.aff
index f496d64..047f9f7 100644
--- a/data/verb.aff
+++ b/data/verb.aff
@@ -580,9 +580,9 @@ infinitiivi_1	0	sta	w
 preesens_yks_1	0	sen	s
 imperfekti_yks_3	0	si	s
 kondit_yks_3	0	sisi	s
-imperatiivi_yks_3	0	skoon	s
-partisiippi_2	0	ssut	s
-imperfekti_pass	0	stiin	s
+imperatiivi_yks_3	0	skoon	w
+partisiippi_2	0	ssut	w
+imperfekti_pass	0	stiin	w
 end: rules
 end: class
 
-- 
2.43.0


From e4f1b177d3b24a353ec6a824be801e51d90d908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 52/58] fix: Kotus gradation class of words with reverse
 gradation that end in a vowel

---
 tools/pylib/voikkoinfl.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tools/pylib/voikkoinfl.py b/tools/pylib/voikkoinfl.py
index a003b6f..6bae87a 100644
--- a/tools/pylib/voikkoinfl.py
+++ b/tools/pylib/voikkoinfl.py
@@ -89,18 +89,18 @@ class InflectionType:
 			if word[-3:] == 'uku': return 'M'
 			if word[-3:] == 'yky': return 'M'
 		if grad_type == 'av2':
-			if word[-4:-2] == 'ng': return 'G'
-			if word[-4:-2] == 'mm': return 'H'
-			if word[-4:-2] == 'nn': return 'J'
-			if word[-4:-2] == 'll': return 'I'
-			if word[-4:-2] == 'rr': return 'K'
-			if word[-3] == 'd': return 'F'
-			if word[-3] == 't': return 'C'
-			if word[-3] == 'k': return 'A'
-			if word[-3] == 'p': return 'B'
-			if word[-3] == 'b': return 'O' # Unofficial, not in Kotus
-			if word[-3] == 'g': return 'P' # Unofficial, not in Kotus
-			if word[-3] == 'v': return 'E'
+			if word[-3:-1] == 'ng': return 'G'
+			if word[-3:-1] == 'mm': return 'H'
+			if word[-3:-1] == 'nn': return 'J'
+			if word[-3:-1] == 'll': return 'I'
+			if word[-3:-1] == 'rr': return 'K'
+			if word[-2] == 'd': return 'F'
+			if word[-2] == 't': return 'C'
+			if word[-2] == 'k': return 'A'
+			if word[-2] == 'p': return 'B'
+			if word[-2] == 'b': return 'O' # Unofficial, not in Kotus
+			if word[-2] == 'g': return 'P' # Unofficial, not in Kotus
+			if word[-2] == 'v': return 'E'
 		if grad_type == 'av3': # k -> j
 			if word[-2] == 'k': return 'L'
 		if grad_type == 'av4': # j -> k
-- 
2.43.0


From 54f5982d455250a8a2bbe4885a16e11d3d41987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 53/58] fix: plural illative of words like kauris ends in
 -iihin, not -iihn

---
 voikko-fi/vvfst/taivutuskaavat.lexc.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voikko-fi/vvfst/taivutuskaavat.lexc.in b/voikko-fi/vvfst/taivutuskaavat.lexc.in
index 77d3313..9e4eb21 100644
--- a/voikko-fi/vvfst/taivutuskaavat.lexc.in
+++ b/voikko-fi/vvfst/taivutuskaavat.lexc.in
@@ -2375,7 +2375,7 @@ LEXICON NOUN Kauris_s
 [Ses][Ny]in<A>:in<A>	<WC>LiOlV_<A>	;
 <WC>YhteisetMonikonSijat2_<A>	;
 [Sill][Ny]isee:isee	<WC>LiOlN_<A>	;
-[Sill][Nm]ih:ih	<WC>LiOlN_<A>	;
+[Sill][Nm]ihi:ihi	<WC>LiOlN_<A>	;
 [Sill][Nm]isii:isii	<WC>LiOlN_<A>	;
 i:i	<WC>YhteisetYksikönPaikallissijat_<A>	;
 <WC>YhteisetMonikonPaikallissijat_<A>	;
-- 
2.43.0


From 71cd345c7a35550bdcfbe7551016f2a878555c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:57 +0000
Subject: [PATCH 54/58] fix: voikko-fi accepted ahmaisttiin and the like as
 passive past of verbs like ahmaista

---
 voikko-fi/vvfst/taivutuskaavat.lexc.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/voikko-fi/vvfst/taivutuskaavat.lexc.in b/voikko-fi/vvfst/taivutuskaavat.lexc.in
index 9e4eb21..3b88e68 100644
--- a/voikko-fi/vvfst/taivutuskaavat.lexc.in
+++ b/voikko-fi/vvfst/taivutuskaavat.lexc.in
@@ -3319,7 +3319,7 @@ LEXICON Nuolaista_w
 TositavanKertomaTiin_<A>	;
 Johdin_nimitapa1tA_<A>	;
 t:t	Johdin_nimitapa2_AessA_<A>	;
-Tositapa4Tt_<A>	;
+TositavanKestämäTaan_<A>	;
 Käskytapa_<A>	;
 s:s	Mahtotapa_<A>	;
 EhtoMahtoKäskytapa_tA_<A>	;
-- 
2.43.0


From b2a4d6cceb8af8cea314bb67d5ee6852ac88a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:16 +0000
Subject: [PATCH 55/58] fix: Flesch reading ease starts from 206.835, not
 206.823

---
 tools/pylib/voikkostatistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/pylib/voikkostatistics.py b/tools/pylib/voikkostatistics.py
index 2def3fa..ff8bcff 100644
--- a/tools/pylib/voikkostatistics.py
+++ b/tools/pylib/voikkostatistics.py
@@ -96,7 +96,7 @@ def getStatistics(text, voikko):
 		result[u"FLESCH_KINCAID_GRADE_LEVEL"] = 0
 		result[u"WIIO_SIMPLE"] = 0
 	else:
-		result[u"FLESCH_READING_EASE"] = 206.823 - 1.015 * wordCount / sentenceCount - 84.6 * syllableCount / wordCount
+		result[u"FLESCH_READING_EASE"] = 206.835 - 1.015 * wordCount / sentenceCount - 84.6 * syllableCount / wordCount
 		result[u"FLESCH_KINCAID_GRADE_LEVEL"] = 0.39 * wordCount / sentenceCount + 11.8 * syllableCount / wordCount - 15.59
 		result[u"WIIO_SIMPLE"] = 2.7 + 30.0 * __getUpper(baseformLengthHistogram, 4) / knownWords
 	
-- 
2.43.0


From 5fb534b599053866e2e513e40240ea5c49ceee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:18 +0000
Subject: [PATCH 56/58] fix: voikko-gc-pretty --empty-line did not check a
 paragraph that ends at end of input

---
 tools/bin/voikko-gc-pretty | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/bin/voikko-gc-pretty b/tools/bin/voikko-gc-pretty
index b3739da..6269430 100755
--- a/tools/bin/voikko-gc-pretty
+++ b/tools/bin/voikko-gc-pretty
@@ -67,4 +67,6 @@ else:
 		if len(paragraph) > 0:
 			paragraph = paragraph + " "
 		paragraph = paragraph + line
+	if len(paragraph) > 0:
+		handleParagraph(paragraph)
 
-- 
2.43.0


From cba8cebc8487be33fcd02830366b0630f2952ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 57/58] fix: process_wordlist never finished reading a gzip
 compressed word list

---
 tools/pylib/voikkoutils.py      | 2 +-
 voikko-fi/common/voikkoutils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/pylib/voikkoutils.py b/tools/pylib/voikkoutils.py
index 439649f..13b9416 100644
--- a/tools/pylib/voikkoutils.py
+++ b/tools/pylib/voikkoutils.py
@@ -191,7 +191,7 @@ def capital_char_regexp(pattern):
 # If show_progress == True, prints progess information to stdout
 def process_wordlist(filename, word_handler, show_progress = False):
 	if filename.endswith(".gz"):
-		listfile = gzip.GzipFile(filename, 'r')
+		listfile = gzip.open(filename, 'rt', encoding="UTF-8")
 	else:
 		listfile = open(filename, 'r', encoding="UTF-8")
 	line = ""
diff --git a/voikko-fi/common/voikkoutils.py b/voikko-fi/common/voikkoutils.py
index 2f72abd..a8c7186 100644
--- a/voikko-fi/common/voikkoutils.py
+++ b/voikko-fi/common/voikkoutils.py
@@ -199,7 +199,7 @@ def capital_char_regexp(pattern):
 # If show_progress == True, prints progess information to stdout
 def process_wordlist(filename, word_handler, show_progress = False):
 	if filename.endswith(".gz"):
-		listfile = gzip.GzipFile(filename, 'r')
+		listfile = gzip.open(filename, 'rt', encoding="UTF-8")
 	else:
 		listfile = open(filename, 'r', encoding="UTF-8")
 	line = ""
-- 
2.43.0


From a58e3751b8e50555f8c194bfe3f6d5f1a77700d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:38 +0000
Subject: [PATCH 58/58] fix: process_wordlist never finished reading a word
 list that is cut short

---
 tools/pylib/voikkoutils.py      | 3 +++
 voikko-fi/common/voikkoutils.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tools/pylib/voikkoutils.py b/tools/pylib/voikkoutils.py
index 13b9416..1940c2e 100644
--- a/tools/pylib/voikkoutils.py
+++ b/tools/pylib/voikkoutils.py
@@ -207,6 +207,9 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == "</wordlist>\n": break
 		while line != '</word>\n':
+			if line == '':
+				sys.stderr.write("Malformed file " + filename + "\n")
+				return
 			wordstr = wordstr + line
 			line = listfile.readline()
 		word = xml.dom.minidom.parseString(wordstr + line)
diff --git a/voikko-fi/common/voikkoutils.py b/voikko-fi/common/voikkoutils.py
index a8c7186..74aaaea 100644
--- a/voikko-fi/common/voikkoutils.py
+++ b/voikko-fi/common/voikkoutils.py
@@ -215,6 +215,9 @@ def process_wordlist(filename, word_handler, show_progress = False):
 		line = listfile.readline()
 		if line == "</wordlist>\n": break
 		while line != '</word>\n':
+			if line == '':
+				sys.stderr.write("Malformed file " + filename + "\n")
+				return
 			wordstr = wordstr + line
 			line = listfile.readline()
 		word = xml.dom.minidom.parseString(wordstr + line)
-- 
2.43.0

