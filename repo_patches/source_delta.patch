From 8827b686729662d0cda025d97922fc0dfcd5d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 01/55] fix: isCertain("min") looked up a component that does
 not exist

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..c4d0551 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -275,7 +275,7 @@ bool ParsedComponents::isCertain(std::string comp) {
         return knownValues["hour"].first;
 
     else if(!comp.compare("min"))
-        return knownValues["minute"].first;
+        return knownValues["min"].first;
 
     else if(!comp.compare("sec"))
         return knownValues["sec"].first;
-- 
2.43.0


From 1ec39d52a457e6362a1c0d448eb34da157b37e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/55] fix: unbalanced parentheses in the day of the week
 pattern

The regex could not be built, so no weekday was ever recognised.
---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From 46a4dcf3642cf7a0d8f60bb7033142e19490e185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 03/55] fix: stray quote and doubled backslash in the time
 later pattern

"4 days from now", "2 days later" never matched.
---
 src/parsers/en/ENTimeLaterParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..a22cf1f 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,8 +17,8 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
-- 
2.43.0


From dc726b5bd5ab8cf089e0a45d62351b272a4280e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 04/55] fix: doubled backslash in the time ago pattern

"7 years ago" never matched.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..68c0bec 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From fdb3695dae75a20859535e9d64d2c1572726d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 05/55] fix: position of a match applied to the matched text
 instead of the input

"... 7 years ago" far enough into the text threw std::out_of_range.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 68c0bec..2e0022d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
                 return result;
             }
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a22cf1f..326ff05 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -24,12 +24,12 @@
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From c5b8bb3c20189996efda3b1d264a00c9e475b19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 06/55] fix: month and day only recognised when followed by
 whitespace

"Jan 12", "March/6/2020", "Feb. 18th - 22nd, 2005" were missed or lost their year.
---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..2068e0f 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,7 +42,7 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm))\s*)"
                             R"((?:)"
                                 R"((?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
@@ -53,7 +53,7 @@
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 913c79b1c06e3a3af4edf4a3e3ee6da780ee6e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 07/55] fix: end of a day range written as an ordinal word

"July first to third" ended on day 0.
---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 2068e0f..5f65945 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 61ae5354efbffff0f2cbe790596a1992bb178a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 08/55] fix: month abbreviations "may." and "jun" accepted by
 the patterns but not understood

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 src/utils/utils.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..dc4b651 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,7 +21,7 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From e6d442f89dd986e1966c52e38f593edc123cce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 09/55] fix: holidays that end the text or carry a doubled
 backslash in the pattern

"christmas", "veteran's day" never matched, "new year's eve" was read as new year's.
---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..7635a34 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,8 +13,8 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas\s*(?:eve)?|)"
+                        R"(black\s*Friday)\s*)"
                             R"((?:day)?)"
                     R"((\b))", std::regex::icase};
 
-- 
2.43.0


From 33b2331e9b9c655fd98c296268e793d3bae6f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 10/55] fix: black friday reported as the saturday after
 thanksgiving

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 7635a34..0decf23 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 1c53de929cc21fd04c0874baaa3d86826828f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 11/55] fix: unknown words before "weeks" added to the table of
 number words

"next few weeks" was read as zero weeks, and taught every other parser
in the process that "few" is 0.
---
 src/parsers/en/ENWeekExperessionParser.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..a3dfeae 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,12 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                // operator[] would add the unknown word to the shared table
+                auto word = utils::INTEGER_WORDS.find(match.str(4));
+                if(word == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = word->second;
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From e7845a49758642154fa2fc65b3b718631b3fa966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 12/55] fix: abbreviated units accepted by the deadline pattern
 but not applied

"in 5 mins", "in 2 hrs", "in 3 wks" were read as now.
---
 src/parsers/en/ENDeadlineFormatParser.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..6c44d8a 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,7 +61,7 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
-            std::regex dwmy(("day|week|month|year"));
+            std::regex dwmy(("day|w(?:ee)?k|month|y(?:ea)?r"));
             if(std::regex_search(match.str(4), dwmy)) {
                 if(match.str(4).find("day") != std::string::npos) {
                     if(floor(num) == num) {
@@ -80,7 +80,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(!match.str(4).find("w")) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -96,7 +96,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(!match.str(4).find("y")) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +112,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!match.str(4).find("h")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +120,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!match.str(4).find("min")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpDate.year());
-- 
2.43.0


From 60441966dd8e82628ed42d84883847da0a24696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 13/55] fix: deadline in hours, minutes or seconds past
 midnight kept the old date

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 6c44d8a..bc3ae3b 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -128,9 +128,9 @@
             } else if (!match.str(4).find("sec")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From e2412941a40d702a57d0d687d38743d115827586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 14/55] fix: number words and "min" accepted by the relative
 date pattern but not understood

"next two weeks" gave nothing, "next 5 mins" gave now.
---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From 2958ea50e3fa620fa98f590875bdc50f30a66fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 15/55] fix: half a unit ago or later was read as zero

"half an hour ago" was now and "half a year later" was today.
---
 src/utils/utils.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..8d2dd98 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -62,21 +62,24 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
         num = std::stoi(_num);
     }
 
+    // date and time arithmetic takes whole numbers only, so read half a unit in a smaller one,
+    // with the same values as the deadline and relative date parsers
+    bool half = num == 0.5f;
     std::string element{match[2].str()};
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
-        fragments["hour"] = num;
+        half ? fragments["minute"] += 30 : fragments["hour"] += num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
-        fragments["minute"] = num;
+        half ? fragments["second"] += 30 : fragments["minute"] += num;
     else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
-        fragments["second"] = num;
+        fragments["second"] += num;
     else if(std::regex_search(element, std::regex("week", std::regex::icase)))
-        fragments["week"] = num;
+        half ? fragments["day"] += 3 : fragments["week"] += num;
     else if(std::regex_search(element, std::regex("day", std::regex::icase)))
-        fragments["day"] = num;
+        half ? fragments["hour"] += 12 : fragments["day"] += num;
     else if(std::regex_search(element, std::regex("month", std::regex::icase)))
-        fragments["month"] = num;
+        half ? fragments["day"] += 15 : fragments["month"] += num;
     else if(std::regex_search(element, std::regex("year", std::regex::icase)))
-        fragments["year"] = num;
+        half ? fragments["month"] += 6 : fragments["year"] += num;
 
     return fragments;
 }
-- 
2.43.0


From 11e22ed956cc1631566f8a1f659501c2bfdf5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 16/55] fix: days and hours ago or later together lost the
 crossing of midnight

"1 day 3 hours ago" at 01:00 was a day late.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 3 +++
 src/parsers/en/ENTimeLaterParser.hpp     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2e0022d..7bf80a6 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -58,6 +58,9 @@
                 }
             }
 
+            // hours, minutes and seconds may cross midnight
+            date += date_t.date() - ref.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 326ff05..69aceda 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -63,6 +63,9 @@
                 }
             }
 
+            // hours, minutes and seconds may cross midnight
+            date += date_t.date() - ref.date();
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
-- 
2.43.0


From 2f7d621df59c3d19d4c4eea448432b081c8aab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 17/55] fix: amount that leaves the calendar ignored instead of
 rejected

"9000 years ago" was read as today.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 7bf80a6..d4dbd25 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -54,7 +54,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
-- 
2.43.0


From bbe22bbe4c601def2a188252a3a1b7d32769e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 18/55] fix: uninitialised and dangling meridiem in time ranges

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 181b6ebab22886962afa4011d5eccc7816a74145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 19/55] fix: implied p.m. added to an hour already in the
 afternoon

"from 4pm to 18:30" ended at hour 30.
---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..186bdb7 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -169,7 +169,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -182,7 +182,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From 36edccf5f1b6f4bf581d8ff5adb5d049bc9b5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 20/55] fix: text of a time expression does not start at its
 index

The index counts the character before the time, the text left it out, so the
span ended too early.
---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 186bdb7..b2cbff3 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -34,7 +34,7 @@
 
         parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
-            std::string text = match.str(0).substr(match.length(1));
+            std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
-- 
2.43.0


From 375d527e0e4f0e55a6b92637926743cf3baaa403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 21/55] fix: index of a month name points into the preceding
 word

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index dc4b651..5ae4446 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From a70bcc5bc538655d682fac8c76f3af95bee9c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 22/55] fix: sign of ISO offsets of less than an hour

"-00:30" was read as +30 minutes.
---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index 0b88a6a..c1ff82f 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -64,7 +64,7 @@
                     }
 
                     int offset = hourOffset * 60;
-                    if(offset < 0) {
+                    if(match.str(TZD_HOUR_OFFSET_GROUP)[0] == '-') {
                         offset -= minuteOffset;
                     }
                     else {
-- 
2.43.0


From 3624d2a6b9fbac92cc5b65a6746491c81c0ecde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 23/55] fix: amounts and dates out of range terminated the
 program

"in 9000 years", "99999999999 days ago" and "February 30" let std::out_of_range
escape from execute(). They are not dates: report nothing for them.
---
 src/parsers/parsers.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..2ae81c5 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,12 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } // amount or date that the calendar can not express
+        catch (std::out_of_range& err) {
+            std::cerr << err.what() << std::endl;
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
-- 
2.43.0


From a274565da912f420e9ab3d87094c7ce5e225c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 24/55] fix: huge amounts wrapped around to a wrong date

"in 65536 years" was today, "in 24000000 days" was in 2192.
---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  4 ++++
 src/parsers/en/ENRelativeDateFormatParser.hpp |  4 ++++
 src/parsers/en/ENTimeAgoFormatParser.hpp      |  3 +++
 src/parsers/en/ENTimeLaterParser.hpp          |  3 +++
 src/parsers/en/ENWeekExperessionParser.hpp    |  3 +++
 src/utils/utils.cpp                           | 23 +++++++++++++++++++
 src/utils/utils.hpp                           |  3 +++
 7 files changed, 43 insertions(+)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index bc3ae3b..aeff005 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -57,6 +57,10 @@
                 }
             }
 
+            if(!utils::isRepresentable({{match.str(4), num}})) {
+                return result;
+            }
+
             /* boost::date_time functions deal with long ints,
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..7744aeb 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -57,6 +57,10 @@
                 }
             }
 
+            if(!utils::isRepresentable({{match.str(RELATIVE_WORD_GROUP), num}})) {
+                return result;
+            }
+
             // this ...
             if(!match.str(MODIFIER_WORD_GROUP).compare("this")) {
                 if(!match.str(MULTIPLIER_WORD_GROUP).empty()) {
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index d4dbd25..6299719 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -29,6 +29,9 @@
             }
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            if(!utils::isRepresentable(fragments)) {
+                return result;
+            }
 
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 69aceda..a050cb2 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -33,6 +33,9 @@
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            if(!utils::isRepresentable(fragments)) {
+                return result;
+            }
 
             // tricky here turning the floats to ints
             gregorian::date date{ref.date()};
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index a3dfeae..c42fae5 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -37,6 +37,9 @@
                 }
                 numberOfWeeks = word->second;
             }
+            if(!utils::isRepresentable({{"week", static_cast<float>(numberOfWeeks)}})) {
+                return result;
+            }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
             }
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 8d2dd98..74d6bea 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -84,3 +84,26 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     return fragments;
 }
 
+bool utils::isRepresentable(const std::map<std::string, float>& fragments) {
+    // boost checks the year of the date it arrives at, but only after its day count
+    // and its 16 bit year have wrapped around
+    static const double MAX_SECONDS = 6000.0 * 365 * 86400;
+    double seconds = 0;
+
+    for(const auto& a : fragments) {
+        double unit = 1;
+        switch(a.first[0]) {
+            case 'y': unit = 365 * 86400; break;
+            case 'w': unit = 7 * 86400; break;
+            case 'd': unit = 86400; break;
+            case 'h': unit = 3600; break;
+            case 'm': unit = a.first[1] == 'o' ? 30 * 86400 : 60; break;
+            default: break;
+        }
+        // must also fit in the int that it is cast to
+        if(a.second >= 2147483648.0f)
+            return false;
+        seconds += a.second * unit;
+    }
+    return seconds <= MAX_SECONDS;
+}
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..61987b9 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -196,6 +196,9 @@ namespace utils {
 
     std::map<std::string, float> extractDateTimeUnitFragments(std::string);
 
+    // whether date arithmetic can take these amounts without wrapping around
+    bool isRepresentable(const std::map<std::string, float>&);
+
     std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
 }
 
-- 
2.43.0


From 440c9349a4996603f7be1a80dcf4888c10d21e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 25/55] fix: dates that do not exist were reported as results

isPossibleDate() compared mismatched fields, and nothing called it, so "2019-02-30",
"2019-01-01T99:99" and "02:69:30" gave results whose toDate() throws or is wrong.
---
 src/result.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index c4d0551..f121134 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,26 +289,18 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // needs implementation
-    // std::time_t tmp = std::time(nullptr);
-    std::tm tmp, tmp1; // = std::gmtime(&tmp);
-
-    tmp1.tm_year = getYear();
-    tmp1.tm_mon  = getMonth()-1;
-    tmp1.tm_mday = get_mDay();
-    tmp1.tm_hour = getHour();
-    tmp1.tm_min  = getMinute();
-    tmp1.tm_sec  = getSeconds();
-
-    posix_time::ptime tmp2 = posix_time::ptime_from_tm(tmp1);
-    tmp = posix_time::to_tm(tmp2);
-
-    if(tmp.tm_year != getYear())    return false;
-    if(tmp.tm_mon  != getMonth()-1) return false;
-    if(tmp.tm_mday != get_mDay())   return false;
-    if(tmp.tm_wday != get_wDay())   return false;
-    if(tmp.tm_hour != getHour())    return false;
-    if(tmp.tm_min  != getMinute())  return false;
+    // date() takes any amount of hours, minutes and seconds
+    if(getHour()    < 0 or getHour()    > 24) return false;
+    if(getMinute()  < 0 or getMinute()  > 59) return false;
+    if(getSeconds() < 0 or getSeconds() > 59) return false;
+
+    try {
+        // fails on days that are not in the calendar
+        date().date().year();
+    }
+    catch (std::out_of_range& e) {
+        return false;
+    }
 
     /*
     if(knownValues["year"].first  == false and
@@ -393,8 +385,7 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
-    //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
-    return true;
+    return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
 }
 
 ParsedResult::~ParsedResult() { }
-- 
2.43.0


From 0620ea033723edc7dad7dcfbecbb43e662c123da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 26/55] fix: time zone not applied to the end of a range

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 src/result.cpp                               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..787b00a 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -35,7 +35,7 @@ public:
                         }
 
                         if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                            res.endDate.setTimeZoneOffset(offset);
                         }
 
                         res.setText(match[1].str());
diff --git a/src/result.cpp b/src/result.cpp
index f121134..0ec6af7 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -425,7 +425,7 @@ std::string ParsedResult::toDate() {
         if(getTag(utils::ExtractTimeZoneAbbreviation))
             ed += posix_time::minutes(startDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From 0d8a313f81d1bf3983c877dfe62b10ff834c2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 27/55] fix: text of a result replaced by its time zone
 abbreviation

The text has to go on covering the time, the refiners that follow use its length.
---
 src/refiners/ExtractTimeZoneAbbreviation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 787b00a..7ae4e12 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -38,7 +38,7 @@ public:
                             res.endDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
+                        res.setText(text.substr(res.getIndex(), res.textLength() + match.length(0)));
                         res.setTag(utils::ExtractTimeZoneAbbreviation);
                     }
                 }
-- 
2.43.0


From 89f971d07caa31507d29600654c3cf3c9d37801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 28/55] fix: time zone lost when a time is merged into a date

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..1e79504 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -43,6 +43,9 @@ public:
             else {
                 dateTimeComp.implyComponent("sec", timeComp.getSeconds());
             }
+            if(timeComp.isCertain("tzoffset")) {
+                dateTimeComp.setTimeZoneOffset(timeComp.getTimeZoneOffset());
+            }
         } 
         else {
             dateTimeComp.implyComponent("hour", timeComp.getHour());
-- 
2.43.0


From 5a83b2aa6f7d5dc453f976a404861ae7064565b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 29/55] fix: merged time reported a second time on its own

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1e79504..c98d694 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -121,22 +121,14 @@ public:
 
             if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                try {
-                    curr = r.at(i+1);
-                }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
-                }
+                // empty if there is nothing left
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, curr, prev);
-                try {
-                    curr = r.at(i+1);
-                }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
-                }
+                // empty if there is nothing left
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
-- 
2.43.0


From 75f66eedeb495312b7ac708d09245ccb699eb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 30/55] fix: time range past midnight on the last day of a
 month

"January 31 from 10pm to 1am" ended on January 32.
---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index c98d694..c4c3179 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -77,10 +77,18 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                gregorian::date nextDay = endDateTime.date().date() + gregorian::days(1);
+
+                if(endDateTime.isCertain("mday")) {
+                    endDateTime.set_mDay(nextDay.day());
+                    endDateTime.setMonth(nextDay.month());
+                    endDateTime.setYear(nextDay.year());
+                }
+                else {
+                    endDateTime.implyComponent("mday", nextDay.day());
+                    endDateTime.implyComponent("month", nextDay.month());
+                    endDateTime.implyComponent("year", nextDay.year());
+                }
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From ed24e8a4b13576b6ca2f5e28a73dfa6bdd0e4961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 31/55] fix: end of a range shifted by the time zone of its
 start

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 0ec6af7..d9a63c3 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -423,7 +423,7 @@ std::string ParsedResult::toDate() {
 
         posix_time::ptime ed = posix_time::ptime_from_tm(date_end);
         if(getTag(utils::ExtractTimeZoneAbbreviation))
-            ed += posix_time::minutes(startDate.getTimeZoneOffset());
+            ed += posix_time::minutes(endDate.getTimeZoneOffset());
 
         res += " - " + posix_time::to_simple_string(ed);
     }
-- 
2.43.0


From 463fc4f51af1d910104dd8df1295994f848b7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 32/55] fix: implied dates merged into other dates as if they
 were times

"monday to friday" lost friday, "tomorrow to next week" lost next week.
---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index c4c3179..8487478 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -15,7 +15,9 @@ public:
     }
 
     bool isTimeOnly(parse::ParsedResult& r) {
-        return !r.startDate.isCertain("month") and !r.startDate.isCertain("mday");
+        // dates may be implied as well, so this needs a time to begin with
+        return (r.startDate.isCertain("hour") or r.getTag(utils::ENCasualTimeParser)) and
+               !r.startDate.isCertain("month") and !r.startDate.isCertain("mday");
     }
 
     bool isAbleToMerge(std::string text, parse::ParsedResult& prev, parse::ParsedResult& curr) {
-- 
2.43.0


From 320f31092e0ff713202892f21388f961b9b81892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 33/55] fix: date range refiner lost the last result and
 repeated the one before

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..bfb9a5e 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -29,13 +29,14 @@ public:
 
             if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
                 prev = mergeResult(t, prev, curr);
-                curr = tmp;
+                // empty if there is nothing left
+                curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
+        if(!curr.isEmpty()) {
+            merged_result.push_back(curr);  // if curr != null add to list of results
         }
 
         return merged_result;
-- 
2.43.0


From be6ce51228c533ef147140f6ebe85ca18675b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 34/55] fix: date range written later date first lost the
 earlier date

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index bfb9a5e..23540c6 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -54,8 +54,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From aa2dfa0189eef37f72617a77a49b2d815d108d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 35/55] fix: text of a merged date range one character too long

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 23540c6..834c442 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -65,7 +65,7 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
                                    toResult.getIndex() + toResult.textLength());
 
     fromResult.setIndex(static_cast<int>(startIndex));
-    fromResult.setText(text.substr(startIndex, endIndex - startIndex + 1));
+    fromResult.setText(text.substr(startIndex, endIndex - startIndex));
 
     for(const auto& mod: utils::ModList) {
         if(toResult.getTag(mod))
-- 
2.43.0


From 89f8d6575c3ec6e7450283c5653064536b4ace51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 36/55] fix: malformed reference date terminated the program

---
 time.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..df27474 100644
--- a/time.cpp
+++ b/time.cpp
@@ -70,7 +70,14 @@ int main(int argc, char* argv[]) {
 
     if(argc == 3) {
         string refDate = argv[2];
-        t = posix_time::time_from_string(refDate);
+        try {
+            t = posix_time::time_from_string(refDate);
+            t.date().year(); // fails on special values
+        }
+        catch(std::exception& e) {
+            printUsage();
+            return 0;
+        }
     }
 
     for(auto& parser: parsers) {
-- 
2.43.0


From 7b1db58b736ad3fea38c1885a7f55557bc432a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 37/55] fix: whitespace after a date made it overlap the time
 that follows

"tomorrow at 5pm" and "March 6th at 5pm" lost their time to the overlap remover.
---
 src/parsers/parsers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index 2ae81c5..3455f8b 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -50,6 +50,9 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
+            // whitespace after the match may be the start of what follows
+            std::string matched = text.substr(res.getIndex(), res.textLength());
+            res.setText(matched.substr(0, matched.find_last_not_of(" \f\n\r\t\v") + 1));
             results.push_back(res);
         }
         else {
-- 
2.43.0


From e5a506fb4601073ea9fcc28ea0105240d14e58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:13 +0000
Subject: [PATCH 38/55] fix: time merged into the last day of the calendar
 terminated the program

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 8487478..598cfa4 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -112,6 +112,21 @@ public:
         return dateResult;
     }
 
+    bool mergeIfPossible(std::string& text, parse::ParsedResult& dateResult,
+                         parse::ParsedResult& timeResult, parse::ParsedResult& merged) {
+        /**
+         * @brief: merge unless the combination, unlike its parts, is past the end of the calendar
+         * @return true if merged, false otherwise
+         */
+        try {
+            merged = mergeResult(text, dateResult, timeResult);
+        }
+        catch (std::out_of_range& e) {
+            return false;
+        }
+        return merged.hasPossibleDates();
+    }
+
     Result refine(Result r, std::string t) override {
         /**
          * @brief Merge a date-only result and a time-only result into one combined result
@@ -122,21 +137,23 @@ public:
         if(r.size() < 2) // no second component to merge
             return r;
 
-        parse::ParsedResult prev, curr, tmp;
+        parse::ParsedResult prev, curr, tmp, merged;
         Result merged_result;
 
         for(unsigned i=1; i<r.size(); i++) {
             curr = r[i];
             prev = r[i-1];
 
-            if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, prev, curr);
+            if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr) and
+               mergeIfPossible(t, prev, curr, merged)) {
+                prev = merged;
                 // empty if there is nothing left
                 curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
             }
-            else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, curr, prev);
+            else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr) and
+                    mergeIfPossible(t, curr, prev, merged)) {
+                prev = merged;
                 // empty if there is nothing left
                 curr = i + 1 < r.size() ? r[i+1] : tmp;
                 i++;
-- 
2.43.0


From 3df7e16f4ee9cca8d555091f61180af83e07802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 39/55] fix: time zone that moves a date out of the calendar
 terminated the program

---
 time.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/time.cpp b/time.cpp
index df27474..7520b7d 100644
--- a/time.cpp
+++ b/time.cpp
@@ -94,10 +94,21 @@ int main(int argc, char* argv[]) {
         results = refiner->refine(results, str);
     }
 
-    if(results.empty())
+    string date;
+    if(!results.empty()) {
+        try {
+            date = results.at(0).toDate();
+        }
+        catch(std::out_of_range& e) {
+            // the time zone moves it out of the calendar
+            cerr << e.what() << endl;
+        }
+    }
+
+    if(date.empty())
         cout << "[???] -- Invalid date" << endl;
     else
-        cout << "Date:\t"  << results.at(0).toDate() << endl;
+        cout << "Date:\t"  << date << endl;
 
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From f87242c123b19eba01909770bafd1d8f832853ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 40/55] fix: amounts above 16777216 rounded to single precision

---
 src/parsers/en/ENDeadlineFormatParser.hpp     |  2 +-
 src/parsers/en/ENRelativeDateFormatParser.hpp |  4 ++--
 src/parsers/en/ENTimeAgoFormatParser.hpp      |  2 +-
 src/parsers/en/ENTimeLaterParser.hpp          |  2 +-
 src/parsers/en/ENWeekExperessionParser.hpp    |  2 +-
 src/utils/utils.cpp                           | 14 +++++++-------
 src/utils/utils.hpp                           |  6 +++---
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index aeff005..ee99c29 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 7744aeb..bb5de3c 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stod(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 6299719..b4aaca8 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
             if(!utils::isRepresentable(fragments)) {
                 return result;
             }
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index a050cb2..8e62833 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,7 +32,7 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
             if(!utils::isRepresentable(fragments)) {
                 return result;
             }
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index c42fae5..6a963a2 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -37,7 +37,7 @@
                 }
                 numberOfWeeks = word->second;
             }
-            if(!utils::isRepresentable({{"week", static_cast<float>(numberOfWeeks)}})) {
+            if(!utils::isRepresentable({{"week", static_cast<double>(numberOfWeeks)}})) {
                 return result;
             }
             if(match.str(2).find("last") != std::string::npos) {
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 74d6bea..70f12e5 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,8 +31,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -46,9 +46,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
@@ -64,7 +64,7 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
 
     // date and time arithmetic takes whole numbers only, so read half a unit in a smaller one,
     // with the same values as the deadline and relative date parsers
-    bool half = num == 0.5f;
+    bool half = num == 0.5;
     std::string element{match[2].str()};
     if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         half ? fragments["minute"] += 30 : fragments["hour"] += num;
@@ -84,7 +84,7 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     return fragments;
 }
 
-bool utils::isRepresentable(const std::map<std::string, float>& fragments) {
+bool utils::isRepresentable(const std::map<std::string, double>& fragments) {
     // boost checks the year of the date it arrives at, but only after its day count
     // and its 16 bit year have wrapped around
     static const double MAX_SECONDS = 6000.0 * 365 * 86400;
@@ -101,7 +101,7 @@ bool utils::isRepresentable(const std::map<std::string, float>& fragments) {
             default: break;
         }
         // must also fit in the int that it is cast to
-        if(a.second >= 2147483648.0f)
+        if(a.second >= 2147483648.0)
             return false;
         seconds += a.second * unit;
     }
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 61987b9..501cd19 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,12 +194,12 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
     // whether date arithmetic can take these amounts without wrapping around
-    bool isRepresentable(const std::map<std::string, float>&);
+    bool isRepresentable(const std::map<std::string, double>&);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From ac9d6226c1f7648c3fe1caeae990eba120f31783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 41/55] fix: clock times without a colon in the hour after one
 and after midnight

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index b2cbff3..43d7b86 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -70,7 +70,7 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(std::isdigit(match.str(HOUR_GROUP)[0]) and match.length(HOUR_GROUP) > 2) {
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -145,7 +145,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(match.length(TO_HOUR_GROUP) > 2) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From 4262526808f23912e64a7d43549c8c5170cc16aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 42/55] fix: a.m. written after a time range not applied to a
 start of twelve

---
 src/parsers/en/ENTimeExpressionParser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 43d7b86..593a080 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -161,9 +161,16 @@
                         return result;
 
                     char ampm = match.str(TO_MERIDIEM_GROUP)[0];
-                    if(ampm == 'a')
+                    if(ampm == 'a') {
                         if(to_hour == 12)
                             to_hour = 0;
+                        if(match.str(AM_PM_HOUR_GROUP).empty() and match.str(HOUR_GROUP) != "noon") {
+                            if(hour == 12) {
+                                hour = 0;
+                                result.startDate.setHour(hour);
+                            }
+                        }
+                    }
 
                     if(ampm == 'p') {
                         if(to_hour != 12)
-- 
2.43.0


From 69dacd6bbc04a803e9dc5865441b922b255d4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 43/55] fix: p.m. written after a time range applied to a start
 of midnight

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 593a080..7bc6f08 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -175,7 +175,7 @@
                     if(ampm == 'p') {
                         if(to_hour != 12)
                             to_hour += 12;
-                        if(match.str(AM_PM_HOUR_GROUP).empty()) {
+                        if(match.str(AM_PM_HOUR_GROUP).empty() and match.str(HOUR_GROUP) != "midnight") {
                             if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
-- 
2.43.0


From ee0c39afbbf7448d2a3759161b834fed3855e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 44/55] fix: month name not recognised after leading whitespace

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 5ae4446..a316119 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -20,7 +20,7 @@
         ENMonthNameParser() = default;
 
         std::regex getPattern() const override {
-            std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
+            std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
-- 
2.43.0


From 15b3ce0ef5405025c0d5bc9b54469fa32f36cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 45/55] fix: a tag asked for before it was set could not be set
 any more

---
 src/result.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/result.cpp b/src/result.cpp
index d9a63c3..64ba70b 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -449,8 +449,7 @@ size_t ParsedResult::textLength() const {
 }
 
 void ParsedResult::setTag(utils::Modifiers tag_name) {
-    if(tags.count(tag_name) < 1)
-        this->tags.insert({tag_name, true});
+    this->tags[tag_name] = true;
 }
 
 bool ParsedResult::isEmpty() const {
@@ -468,7 +467,7 @@ void ParsedResult::makeEndDateValid() {
 }
 
 bool ParsedResult::getTag(utils::Modifiers m) {
-    return tags[m];
+    return tags.count(m) > 0 and tags[m];
 
 }
 
-- 
2.43.0


From dfc1d74bde03b025567ab0a8263568fb27f09ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 46/55] fix: long runs of spaces around a month and day took
 cubic time

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 5f65945..ad280eb 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -31,10 +31,10 @@
                     R"((\b))"
                         R"((?:)"
                             R"((?:on\s*?)?)"
-                                R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?)\s*,?\s*)?)"
+                                R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?)\s*(?:,\s*)?)?)"
                                     R"((Jan(?:uary|\.)?|Feb(?:ruary|\.)?|Mar(?:ch|\.)?|Apr(?:il|\.)?|May\.?|Jun(?:e|\.)?|)"
                                     R"(Jul(?:\.|y)?|Aug(?:ust|\.)?|Sep(?:\.|t(?:\.|ember)?)?|Oct(?:ober|\.)?|Nov(?:\.|ember)?|Dec(?:ember|\.)?))"
-                                        R"((?:-|\/|\s*,?\s*)(([0-9]{1,2}))"
+                                        R"((?:-|\/|\s*(?:,\s*)?)(([0-9]{1,2}))"
                                             R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
@@ -53,7 +53,7 @@
                                             R"(thirtieth|thirty[ -]first)\s*)"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
+                                            R"((?:-|\/|\s*(?:,\s*)?)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s*)"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 8543febc3118cf64df32ebdd0fb1225270e31c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 47/55] fix: zone abbreviation CHST could not be found in its
 mixed case spelling

---
 src/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 501cd19..08b0631 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -134,7 +134,7 @@ namespace utils {
             {"BRT",  -180}, {"BST",    60}, {"BTT",   360}, {"CAST", 480}, {"CAT",   120},
             {"CCT",   390}, {"CDT",  -300}, {"CEST",  120}, {"CET",   60}, {"CHADT", 825},
             {"CHAST", 765}, {"CKT",  -600}, {"CLST", -180}, {"CLT", -240}, {"COT",  -300},
-            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"ChST", 600}, {"DAVT",  420},
+            {"CST",  -360}, {"CVT",   -60}, {"CXT",   420}, {"CHST", 600}, {"DAVT",  420},
             {"EASST",-300}, {"EAST", -360}, {"EAT",   180}, {"ECT", -300}, {"EDT",  -240},
             {"EEST",  180}, {"EET",   120}, {"EGST",    0}, {"EGT",  -60}, {"EST",  -300},
             {"ET",   -300}, {"FJST",  780}, {"FJT",   720}, {"FKST",-180}, {"FKT",  -240},
-- 
2.43.0


From 3c6de221f2ed36e1f831253ff42b9bf6025d0df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 48/55] fix: closing full stop of a range's a.m. or p.m. left
 out, which hid a time zone after it

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 7bc6f08..e081cf5 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -28,7 +28,7 @@
                                  R"(O\W*CLOCK))?(?=\W|$))"
                                  R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
-                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
+                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(?=\W|$))?)", std::regex::icase);
             return PATTERN;
         }
 
-- 
2.43.0


From fd96822de10c716e7dcd99605fcedf35f4cf7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 49/55] fix: amounts of more than 6000 years refused inside the
 calendar

---
 src/utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 70f12e5..e42d318 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -87,7 +87,7 @@ std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match,
 bool utils::isRepresentable(const std::map<std::string, double>& fragments) {
     // boost checks the year of the date it arrives at, but only after its day count
     // and its 16 bit year have wrapped around
-    static const double MAX_SECONDS = 6000.0 * 365 * 86400;
+    static const double MAX_SECONDS = 8600.0 * 366 * 86400; // the calendar from 1400 to 9999
     double seconds = 0;
 
     for(const auto& a : fragments) {
-- 
2.43.0


From 12488a63d892e1d29675fa5038cc497d0db849d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 50/55] fix: components far outside the calendar were called
 possible dates

date() cuts the year, month and day to 16 bits, so year 67555 was
taken for 2019.
---
 src/result.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 64ba70b..ab8946f 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -289,7 +289,12 @@ bool ParsedComponents::isCertain(std::string comp) {
 }
 
 bool ParsedComponents::isPossibleDate() {
-    // date() takes any amount of hours, minutes and seconds
+    // date() cuts years, months and days to 16 bits
+    if(getYear()  < 1400 or getYear()  > 9999) return false;
+    if(getMonth() < 1    or getMonth() > 12)   return false;
+    if(get_mDay() < 1    or get_mDay() > 31)   return false;
+
+    // and takes any amount of hours, minutes and seconds
     if(getHour()    < 0 or getHour()    > 24) return false;
     if(getMinute()  < 0 or getMinute()  > 59) return false;
     if(getSeconds() < 0 or getSeconds() > 59) return false;
-- 
2.43.0


From 9b6b4acc3fcd4e67565ff45a09eb2d9558c70514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 51/55] fix: holidays with other whitespace inside their name
 were not understood

"new  year's" and "martin  luther king jr" matched the pattern but no
case.
---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 0decf23..8d700c2 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -33,7 +33,7 @@
                 result.startDate.setMonth(7);
                 result.startDate.set_mDay(4);
             }
-            else if(text.find("new year") != std::string::npos) {
+            else if(text.find("year's") != std::string::npos) {
                 result.startDate.setYear(ref.date().year());
                 result.startDate.setMonth(1);
                 result.startDate.set_mDay(1);
@@ -60,7 +60,7 @@
                 }
             }
             else if(text.find("mlk") != std::string::npos or
-                       text.find(utils::toLowerCase("Martin Luther King")) != std::string::npos) {
+                       text.find("luther") != std::string::npos) {
                 //MLK day is the third Monday in Jan
                 utils::ndow thirdMondayOfJan(utils::ndow::third, gregorian::Monday, gregorian::Jan);
                 day = thirdMondayOfJan.get_date(ref.date().year());
-- 
2.43.0


From 98cec1c9ed528daae6d85406fac4ad1d38acd919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 52/55] fix: years 1 BC and 542 BE were taken for no year at
 all

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 src/parsers/en/ENMonthNameParser.hpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index ad280eb..f4b5302 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -74,7 +74,7 @@
                 return result;
             }
 
-            std::string year_s{"-1"};
+            std::string year_s;
             int year{-1};
             if(!match.str(YEAR_GROUP).empty() or !match.str(YEAR_GROUP2).empty()) {
                 if(!match.str(YEAR_GROUP).empty())
@@ -111,7 +111,7 @@
                 }
             }
 
-            if(year != -1) {
+            if(!year_s.empty()) {
                 result.startDate.set_mDay(day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index a316119..0598dcc 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -61,7 +61,7 @@
                     year += 2000;
                 }
             }
-            if(year != -1) {
+            if(!match.str(YEAR__GROUP).empty()) {
                 result.startDate.implyComponent("mday", day);
                 result.startDate.setMonth(month);
                 result.startDate.setYear(year);
-- 
2.43.0


From 88487ad25d46858bef62fb9b2c3056ccb9bb7350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:50 +0000
Subject: [PATCH 53/55] fix: a month and year followed by a blank and AD or BC
 lost its era

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 0598dcc..783efea 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -23,7 +23,7 @@
             std::regex PATTERN = std::regex(R"((^\s*|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
                                     R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
-                                    R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
+                                    R"((?:[,-]?\s*([0-9]{4})(\s*(?:BE|AD|BC))?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
 
             return PATTERN;
-- 
2.43.0


From a590577cfc093632d04c1dbae7dbbe0852948fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:50 +0000
Subject: [PATCH 54/55] fix: "from now" with other whitespace between its words
 was not understood

---
 src/parsers/en/ENTimeLaterParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 8e62833..a3bcc11 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -19,7 +19,7 @@
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
                     R"()\s+)"
                     R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
-                        R"((?:later|after|from now|henceforth|forward|out))"
+                        R"((?:later|after|from\s+now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
         }
-- 
2.43.0


From e560e57ed0bc2bc41f3c078f6e0b41110c3751fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:36 +0000
Subject: [PATCH 55/55] fix: an ISO time with a fraction of more than four
 digits lost its zone offset

---
 src/parsers/en/ENISOFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENISOFormatParser.hpp b/src/parsers/en/ENISOFormatParser.hpp
index c1ff82f..9a8cf6a 100644
--- a/src/parsers/en/ENISOFormatParser.hpp
+++ b/src/parsers/en/ENISOFormatParser.hpp
@@ -25,7 +25,7 @@
             static const std::regex PATTERN {
                     R"((\b))"
                         R"(([0-9]{4})\-([0-9]{1,2})\-([0-9]{1,2})(?:T([0-9]{1,2}):([0-9]{1,2}))"
-                            R"((?::([0-9]{1,2})(?:\.(\d{1,4}))?)?(?:Z|([+-]\d{2}):?(\d{2})?)?)?)"
+                            R"((?::([0-9]{1,2})(?:\.(\d+))?)?(?:Z|([+-]\d{2}):?(\d{2})?)?)?)"
                     R"((\b))", std::regex::icase};
             return PATTERN;
         }
-- 
2.43.0

