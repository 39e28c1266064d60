From eba1bc2224c440a9ed1853b941f7563c31ea2e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/42] fix: balance the parentheses of the weekday pattern,
 which never compiled

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 3f314c7..06e3888 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,10 +23,10 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((earl(?:ier|y)|late)?)"
-                        R"((?:\s*(this|last|next)\s*)?))"
+                        R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-                R"((\b)", /* part of pattern (on\s*)?*/
+                R"((\b))", /* part of pattern (on\s*)?*/
             std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From bee4fc6571770399a11b9d1c6307d62f437b3362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 02/42] fix: let the "N units ago" pattern match, and look for
 its prefix in the searched text

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 22d6a8d..2e0022d 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -13,7 +13,7 @@
             static const std::regex PATTERN = std::regex(
                     R"((\b)(?:within\s*)?((?:((?:one|two|three|four|five|six|seven|eight|nine|)"
                     R"(ten|eleven|twelve)|[0-9]+|an?(?:\s*few)?|half(?:\s*an?)?)\s*(sec(?:onds?)?|)"
-                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+)(?:ago|before|earlier))"
+                    R"(min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+)(?:ago|before|earlier))"
                     R"((\b))", std::regex::icase);
             return PATTERN;
         }
@@ -24,7 +24,7 @@
             std::string text = match.str(FULL_MATCH);
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if(match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w"))) {
+            if(match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w"))) {
                 return result;
             }
 
-- 
2.43.0


From 476c714ef7104448c2d34ceb8ba428b9e594cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 03/42] fix: let the "N units later" pattern match, and look
 for its prefix in the searched text

---
 src/parsers/en/ENTimeLaterParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 30fed1f..326ff05 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -17,19 +17,19 @@
                         R"(((?:one|two|three|four|five|six|seven|eight|nine|ten|eleven|twelve)|)"
                         R"([0-9]+)"
                         R"(|an?(?:\s*few)?|half(?:\s+an?)?)"
-                    R"(")\s+)"
-                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\\s*)+))"
+                    R"()\s+)"
+                    R"((sec(?:onds?)?|min(?:ute)?s?|hours?|weeks?|days?|months?|years?)\s*)+))"
                         R"((?:later|after|from now|henceforth|forward|out))"
                 R"((\b))", std::regex::icase};
             return PATTERN;
         }
 
-        parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
+        parse::ParsedResult extract(std::string& tx, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(FULL_MATCH).substr(match.length(1));
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
-            if (match.position(0) > 0 and std::regex_match(text.substr(match.position(0) - 1), std::regex("\\w")))
+            if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
             std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
-- 
2.43.0


From fd4a5f17c5e29672e1a9de4b4484c1fb19f44df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 04/42] fix: recognise christmas, veteran's day and holidays
 that end the text

---
 src/parsers/en/ENUSHolidaysParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 675d353..5731c3c 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -13,9 +13,9 @@
                     R"((\b))"
                         R"((Independence|President\'s|New\s*Year\'s(?:\s*eve)?|)"
                         R"(Columbus|MLK|Martin\s*Luther\s*King\s*(?:Junior|Jr|Jnr)|)"
-                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\\'s)|Christmas\\s*(?:eve)?|)"
-                        R"(black\s*Friday)\s+)"
-                            R"((?:day)?)"
+                        R"(Thanksgiving|Memorial|Labor|Veteran(?:s|\'s)|Christmas(?:\s*eve)?|)"
+                        R"(black\s*Friday))"
+                            R"((?:\s*day)?)"
                     R"((\b))", std::regex::icase};
 
             return PATTERN;
-- 
2.43.0


From ea3eb341e264e6ba8d5aab8b6639d0b2a103f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 05/42] fix: black friday is the day after thanksgiving, not
 two days after

---
 src/parsers/en/ENUSHolidaysParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENUSHolidaysParser.hpp b/src/parsers/en/ENUSHolidaysParser.hpp
index 5731c3c..f58f0cc 100644
--- a/src/parsers/en/ENUSHolidaysParser.hpp
+++ b/src/parsers/en/ENUSHolidaysParser.hpp
@@ -109,8 +109,8 @@
 
                 result.startDate.setYear(day.year());
                 result.startDate.setMonth(day.month());
-                result.startDate.set_mDay(day.day() + 1);
-                result.startDate.set_wDay(day.day_of_week() + 1);
+                result.startDate.set_mDay(day.day());
+                result.startDate.set_wDay(day.day_of_week());
             }
             else if (text.find("memorial") != std::string::npos) {
                 // Memorial day is observed on the last Monday of May
-- 
2.43.0


From 7163a0ce0c2325834f84963814d65e161846637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/42] fix: recognise a month and day that end the text,
 without swallowing what follows

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3ee34d6..37485f0 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -42,18 +42,18 @@
                                             R"(|thirty[ -]first)"
                                         R"())"
                                         R"((?!\s*)"
-                                        R"((?:am|pm))\s+)"
+                                        R"((?:am|pm)))"
                             R"((?:)"
-                                R"((?:to|\-)\s*)"
+                                R"(\s*(?:to|\-)\s*)"
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
                                             R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
-                                            R"(thirtieth|thirty[ -]first)\s*)"
+                                            R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
                                         R"((?:)"
-                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})\s*(BE|AD|BC)?|([0-9]{1,4})\s*(AD|BC))\s+)"
+                                            R"((?:-|\/|\s*,?\s*)(?:([0-9]{4})(?:\s*(BE|AD|BC))?|([0-9]{1,4})\s*(AD|BC)))"
                                         R"()?)"
                                     R"((\b)(?!\:\d))" , std::regex::icase};
             return PATTERN;
-- 
2.43.0


From 042ec8426b8f5c743b45342318c8983388972c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 07/42] fix: read the last day of a range such as "july fourth
 to seventh" from its words

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 37485f0..dfbdc3d 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -48,7 +48,7 @@
                                     R"((([0-9]{1,2}))"
                                         R"((?:st|nd|rd|th)?|)"
                                             R"(first|second|third|fourth|fifth|sixth|seventh|eighth|ninth|tenth|)"
-                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventheenth|eighteenth|nineteenth|twentieth|)"
+                                            R"(eleventh|twelfth|thirteenth|fourteenth|fifteenth|sixteenth|seventeenth|eighteenth|nineteenth|twentieth|)"
                                             R"(twenty[ -]first|twenty[ -]second|twenty[ -]third|twenty[ -]fourth|twenty[ -]fifth|twenty[ -]sixth|twenty[ -]seventh|twenty[ -]eighth|twenty[ -]ninth|)"
                                             R"(thirtieth|thirty[ -]first))"
                                         R"()?)"
@@ -144,7 +144,7 @@
             if(!match.str(DATE_TO_GROUP).empty()) {
                 int endDate;
                 match.str(DATE_TO_NUM_GROUP).empty() ?
-                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_NUM_GROUP)) :
+                        endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
                 parse::ParsedComponents tmp{result.startDate};
-- 
2.43.0


From 5cceba9bcff9466fe1ab88fa5bf8cd6fe2d65505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 08/42] fix: carry the date when "in N hours" passes midnight

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 94257d3..fbd6f67 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -128,9 +128,9 @@
             } else if (!match.str(4).find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
-            result.startDate.implyComponent("year", tmpDate.year());
-            result.startDate.implyComponent("month", tmpDate.month());
-            result.startDate.implyComponent("mday", tmpDate.day());
+            result.startDate.implyComponent("year", tmpTime.date().year());
+            result.startDate.implyComponent("month", tmpTime.date().month());
+            result.startDate.implyComponent("mday", tmpTime.date().day());
             result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
             result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
             result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
-- 
2.43.0


From 16153ab588448d4732f1e517dc15a8de522c6a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 09/42] fix: honour the unit abbreviations that "in N units"
 accepts, such as hrs and wks

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 29 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index fbd6f67..7c3a9bb 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -61,9 +61,22 @@
              * so to support half (when num == 0.5) use lower time field
              * i.e: instead of hours(0.5) use minutes(30) e.t.c
              */
+            std::string unit{match.str(4)};
+            // spell out the abbreviations that the pattern accepts
+            if(unit[0] == 'h')
+                unit = "hour";
+            else if(unit[0] == 'w')
+                unit = "week";
+            else if(unit[0] == 'y')
+                unit = "year";
+            else if(unit[0] == 's')
+                unit = "second";
+            else if(!unit.find("min"))
+                unit = "minute";
+
             std::regex dwmy(("day|week|month|year"));
-            if(std::regex_search(match.str(4), dwmy)) {
-                if(match.str(4).find("day") != std::string::npos) {
+            if(std::regex_search(unit, dwmy)) {
+                if(unit.find("day") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::days(num);
                     }
@@ -80,7 +93,7 @@
                         return result;
                     }
                 }
-                else if(match.str(4).find("week") != std::string::npos) {
+                else if(unit.find("week") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::weeks(num);
                     }
@@ -88,7 +101,7 @@
                         tmpDate += gregorian::days(3);
                     }
                 }
-                else if(match.str(4).find("month") != std::string::npos) {
+                else if(unit.find("month") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::months(num);
                     }
@@ -96,7 +109,7 @@
                         tmpDate += gregorian::days(15);
                     }
                 }
-                else if(match.str(4).find("year") != std::string::npos) {
+                else if(unit.find("year") != std::string::npos) {
                     if(floor(num) == num) {
                         tmpDate += gregorian::years(num);
                     }
@@ -112,7 +125,7 @@
                 return result;
             }
 
-            if(!match.str(4).find("hour")) {
+            if(!unit.find("hour")) {
                 if(floor(num) == num) {
                     tmpTime += posix_time::hours(static_cast<int>(num));
                 }
@@ -120,12 +133,12 @@
                     tmpTime += posix_time::minutes(30);
                 }
             }
-            else if(!match.str(4).find("minute")) {
+            else if(!unit.find("minute")) {
                 if(floor(num) == num)
                     tmpTime += posix_time::minutes(static_cast<int>(num));
                 else
                     tmpTime += posix_time::seconds(30);
-            } else if (!match.str(4).find("second")) {
+            } else if (!unit.find("second")) {
                 tmpTime += posix_time::seconds(static_cast<int>(ceil(num)));
             }
             result.startDate.implyComponent("year", tmpTime.date().year());
-- 
2.43.0


From fb33692bbc8f6ed22264ced31f33361e7c18e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 10/42] fix: honour the unit abbreviation "mins" in "next 5
 mins"

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f8277bb..e6530cf 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -232,7 +232,7 @@
                         tmpTime -= posix_time::minutes(30);
                     }
                 }
-            } else if (match.str(RELATIVE_WORD_GROUP).find("minute") != std::string::npos) {
+            } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
                         tmpTime += posix_time::minutes(static_cast<int>(num));
-- 
2.43.0


From 705ee81104b62880887a2430ca9a6bd48f5b19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 11/42] fix: let spelled-out numbers match in "next three days"

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index e6530cf..0e0ac40 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -16,7 +16,7 @@
 
         std::regex getPattern() const override {
             static const std::regex PATTERN = std::regex(
-                    R"((\b)(this|next|last|past)\s*( (?:one|two|three|four|five|six|seven|)"
+                    R"((\b)(this|next|last|past)\s*((?:one|two|three|four|five|six|seven|)"
                     R"(eight|nine|ten|eleven|twelve)|[0-9]+|few|half(?:\s*an?)?)?\s*(seconds?|)"
                     R"(min(?:ute)?s?|hour(?:s)?|day(?:s)?|week(?:s)?|month(?:s)?|year(?:s)?)(?=\s*))"
                     R"((\b))", std::regex::icase);
-- 
2.43.0


From b5d955cfc28ce9b859c7047cd92b2793557a9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 12/42] fix: do not add unknown words to the shared number
 table in "next some weeks"

---
 src/parsers/en/ENWeekExperessionParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 4d6e13e..0fa868c 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -30,10 +30,11 @@
                 numberOfWeeks = std::stoi(match.str(3));
             }
             else if(!match.str(4).empty()) {
-                numberOfWeeks = utils::INTEGER_WORDS[match.str(4)];
-                if(numberOfWeeks < 0) {
+                auto word = utils::INTEGER_WORDS.find(match.str(4));
+                if(word == utils::INTEGER_WORDS.end()) {
                     return result;
                 }
+                numberOfWeeks = word->second;
             }
             if(match.str(2).find("last") != std::string::npos) {
                 tmp -= gregorian::weeks(numberOfWeeks);
-- 
2.43.0


From 3b4473a232b61fe7cc18735a5fb0c9d17f7b705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 13/42] fix: recognise the month names "may." and "jun"

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 src/utils/utils.hpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index 7d896e8..dc4b651 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -21,7 +21,7 @@
 
         std::regex getPattern() const override {
             std::regex PATTERN = std::regex(R"((^|\D\s+|[^\w\s])(Jan\.?|January|Feb\.?|February|Mar\.?|March|)"
-                                    R"(Apr\.?|April|May\.?|Jun\\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
+                                    R"(Apr\.?|April|May\.?|Jun\.?|June|Jul\.?|July|Aug\.?|August|Sep\.?|)"
                                     R"(Sept\.?|September|Oct\.?|October|Nov\.?|November|Dec\.?|December)\s*)"
                                     R"((?:[,-]?\s*([0-9]{4})(\s*BE|AD|BC)?)?(?=[^\s\w]|\s+[^0-9]|\s+$|$))",
                                     std::regex::icase);
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 16f2002..6cfcb45 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -105,7 +105,7 @@ namespace utils {
             {"february",   2}, {"feb", 2},  {"feb.",  2},
             {"march",      3}, {"mar", 3},  {"mar.",  3},
             {"april",      4}, {"apr", 4},  {"apr.",  4},
-            {"may",        5},
+            {"may",        5}, {"may.", 5},
             {"june",       6}, {"jun", 6},  {"jun.",  6},
             {"july",       7}, {"jul", 7},  {"jul.",  7},
             {"august",     8}, {"aug", 8},  {"aug.",  8},
-- 
2.43.0


From de17894ea12558cebc1fef893c7d67431410d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 14/42] fix: do not read an uninitialised meridiem or a
 dangling one in "from 5 to 7"

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index eaad3f3..a851298 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -42,7 +42,7 @@
             }
 
             int hour{0}, minute{0};// tz{-1}, meridian{-1};
-            char ampm_s;
+            char ampm_s{0};
 
             //------------Seconds------------------
             if(!match.str(SECOND_GROUP).empty()) {
@@ -160,7 +160,7 @@
                     if(to_hour > 12)
                         return result;
 
-                    char &ampm = match.str(TO_MERIDIEM_GROUP)[0];
+                    char ampm = match.str(TO_MERIDIEM_GROUP)[0];
                     if(ampm == 'a')
                         if(to_hour == 12)
                             to_hour = 0;
-- 
2.43.0


From 58dea2b2a260731f53647d4d725314148520e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 15/42] fix: do not swallow the space after tomorrow and
 yesterday, which hid "at 5pm"

---
 src/parsers/en/ENCasualDateParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENCasualDateParser.hpp b/src/parsers/en/ENCasualDateParser.hpp
index c51a22b..0a424f9 100644
--- a/src/parsers/en/ENCasualDateParser.hpp
+++ b/src/parsers/en/ENCasualDateParser.hpp
@@ -13,8 +13,8 @@ namespace parser {
         std::regex getPattern() const override {
             static const std::regex PATTERN =
                     std::regex(R"((\b))"
-                               R"((now|today|tonight|last\s*night|(?:tomorrow|tmr|yesterday)\s*)"
-                               R"(|tomorrow|tmr|yesterday))"
+                               R"((now|today|tonight|last\s*night|tomorrow|tmr|yesterday)"
+                               R"())"
                                R"((\b))", std::regex::icase);
             return PATTERN;
         }
-- 
2.43.0


From b465d002187141ca40b14def0bd153bdecee3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 16/42] fix: treat a phrase that leaves the calendar as no date
 instead of aborting the caller

---
 src/parsers/en/ENTimeAgoFormatParser.hpp |  2 +-
 src/parsers/parsers.cpp                  |  8 +++++++-
 src/result.cpp                           | 11 +++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2e0022d..55d0b7e 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -54,7 +54,7 @@
                 }
                 catch (std::out_of_range &e) {
                     std::cerr << e.what() << " at ENTimeAgoFormatParser" << std::endl;
-                    continue;
+                    return result;
                 }
             }
 
diff --git a/src/parsers/parsers.cpp b/src/parsers/parsers.cpp
index a4056df..8ea8c78 100644
--- a/src/parsers/parsers.cpp
+++ b/src/parsers/parsers.cpp
@@ -42,7 +42,13 @@ Result Parser::execute(std::string& text, posix_time::ptime& ref) {
         idx = match.position(0) + text.length() - remainingText.length();
 
         parse::ParsedResult res{};
-        res = extract(remainingText, match, ref, idx);
+        try {
+            res = extract(remainingText, match, ref, idx);
+        } // a number or a date that can not be represented
+        catch (std::out_of_range& err) {
+            std::cerr << err.what() << std::endl;
+            res = parse::ParsedResult{};
+        }
 
         if(/*!strictMode or */res.hasPossibleDates()) {
             results.push_back(res);
diff --git a/src/result.cpp b/src/result.cpp
index 4ddd4a2..626db3b 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -393,6 +393,17 @@ bool ParsedResult::hasPossibleDates() {
        startDate.getSeconds() == 0 and end() == false)
         return false;
 
+    try {
+        // e.g. February 30
+        startDate.date();
+        if(end())
+            endDate.date();
+    }
+    catch (std::out_of_range& e) {
+        std::cerr << e.what() << std::endl;
+        return false;
+    }
+
     //return startDate.isPossibleDate() and (!end() or endDate.isPossibleDate());
     return true;
 }
-- 
2.43.0


From d8a2ddebba7749e46c9b572658ca38dcbd94b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 17/42] fix: combine date and time units across midnight in "1
 day 2 hours ago" and "later"

---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 9 ++++++---
 src/parsers/en/ENTimeLaterParser.hpp     | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 55d0b7e..2324d5c 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -58,6 +58,9 @@
                 }
             }
 
+            // the time units count from the day that the date units lead to
+            date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
@@ -65,9 +68,9 @@
             }
             if(fragments["day"] > 0 or fragments["month"] > 0 or
                 fragments["year"] > 0 or fragments["week"] > 0) {
-                result.startDate.set_mDay(date.day());
-                result.startDate.setMonth(date.month());
-                result.startDate.setYear(date.year());
+                result.startDate.set_mDay(date_t.date().day());
+                result.startDate.setMonth(date_t.date().month());
+                result.startDate.setYear(date_t.date().year());
             }
             else {
                 /*if (fragments["week"] > 0) {
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 326ff05..1f9f8af 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -63,6 +63,9 @@
                 }
             }
 
+            // the time units count from the day that the date units lead to
+            date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
+
             if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
@@ -70,9 +73,9 @@
             }
             if(fragments["day"] > 0 or fragments["month"] > 0 or
                 fragments["year"] > 0 or fragments["week"] > 0) {
-                result.startDate.set_mDay(date.day());
-                result.startDate.setMonth(date.month());
-                result.startDate.setYear(date.year());
+                result.startDate.set_mDay(date_t.date().day());
+                result.startDate.setMonth(date_t.date().month());
+                result.startDate.setYear(date_t.date().year());
             }
             else {
                 /*if (fragments["week"] > 0) {
-- 
2.43.0


From fbd076d4fbdee0df10d8fe49e01455e0f45ec249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 18/42] fix: do not round "half an hour ago" down to nothing

---
 src/utils/utils.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 1c00386..75c85b6 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -63,7 +63,24 @@ std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, s
     }
 
     std::string element{match[2].str()};
-    if(std::regex_search(element, std::regex("hour", std::regex::icase)))
+    if(num == 0.5) {
+        // no unit is split: use a lower one, like ENDeadlineFormatParser
+        if(std::regex_search(element, std::regex("hour", std::regex::icase)))
+            fragments["minute"] = 30;
+        else if(std::regex_search(element, std::regex("min", std::regex::icase)))
+            fragments["second"] = 30;
+        else if(std::regex_search(element, std::regex("sec", std::regex::icase)))
+            fragments["second"] = 1;
+        else if(std::regex_search(element, std::regex("week", std::regex::icase)))
+            fragments["day"] = 3;
+        else if(std::regex_search(element, std::regex("day", std::regex::icase)))
+            fragments["hour"] = 12;
+        else if(std::regex_search(element, std::regex("month", std::regex::icase)))
+            fragments["day"] = 15;
+        else if(std::regex_search(element, std::regex("year", std::regex::icase)))
+            fragments["month"] = 6;
+    }
+    else if(std::regex_search(element, std::regex("hour", std::regex::icase)))
         fragments["hour"] = num;
     else if(std::regex_search(element, std::regex("min", std::regex::icase)))
         fragments["minute"] = num;
-- 
2.43.0


From 4ca8e2d845330252c04da51b5afa22f822d2a012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 19/42] fix: end an overnight range on the next day, also at
 the end of a month

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 1ebce82..99002f9 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -74,10 +74,17 @@ public:
 
             if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
-                if(endDateTime.isCertain("mday"))
-                    endDateTime.set_mDay(endDateTime.get_mDay() + 1);
-                else
-                    endDateTime.implyComponent("mday", endDateTime.get_mDay() + 1);
+                gregorian::date nextDay{endDateTime.date().date() + gregorian::days(1)};
+                if(endDateTime.isCertain("mday")) {
+                    endDateTime.setYear(nextDay.year());
+                    endDateTime.setMonth(nextDay.month());
+                    endDateTime.set_mDay(nextDay.day());
+                }
+                else {
+                    endDateTime.implyComponent("year", nextDay.year());
+                    endDateTime.implyComponent("month", nextDay.month());
+                    endDateTime.implyComponent("mday", nextDay.day());
+                }
             }
             dateResult.endDate = endDateTime;
             dateResult.makeEndDateValid();
-- 
2.43.0


From 1ecc4f03b8386378f200efddcf767e2134d66ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 20/42] fix: do not repeat the time as a second result after
 merging it with its date

---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 36 +++++++------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 99002f9..51b453f 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -116,38 +116,26 @@ public:
         if(r.size() < 2) // no second component to merge
             return r;
 
-        parse::ParsedResult prev, curr, tmp;
+        parse::ParsedResult prev, curr;
         Result merged_result;
 
-        for(unsigned i=1; i<r.size(); i++) {
-            curr = r[i];
-            prev = r[i-1];
+        for(unsigned i=0; i<r.size(); i++) {
+            prev = r[i];
 
-            if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, prev, curr);
-                try {
-                    curr = r.at(i+1);
-                }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
-                }
-                i++;
-            }
-            else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, curr, prev);
-                try {
-                    curr = r.at(i+1);
+            if(i + 1 < r.size()) {
+                curr = r[i+1];
+
+                if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
+                    prev = mergeResult(t, prev, curr);
+                    i++;
                 }
-                catch (std::out_of_range& e) {
-                    std::cerr << e.what() << " at ENMergeDateAndTimeRefiner" << std::endl;
+                else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
+                    prev = mergeResult(t, curr, prev);
+                    i++;
                 }
-                i++;
             }
             merged_result.push_back(prev);
         }
-        if(!curr.isEmpty()) {
-            merged_result.push_back(curr);
-        }
 
         return merged_result;
     }
-- 
2.43.0


From 013d9f7522840c0306f03d02c3cbea26f9556722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 21/42] fix: keep both dates when a range names the later one
 first

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index b1803f7..be47b9d 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -53,8 +53,8 @@ parse::ParsedResult ENMergeDateRange::mergeResult(std::string text,
      */
     if(fromResult.startDate.date() > toResult.startDate.date()) {
         parse::ParsedResult tmp = fromResult;
-        toResult = fromResult;
-        fromResult = tmp;
+        fromResult = toResult;
+        toResult = tmp;
     }
     fromResult.endDate = toResult.startDate;
     fromResult.makeEndDateValid();
-- 
2.43.0


From 308b7d9b70d4de6b3a1121c433425216aef9a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 22/42] fix: neither drop nor repeat results when looking for
 date ranges

---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index be47b9d..1c794a4 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -20,23 +20,22 @@ public:
             return r;
         }
 
-        parse::ParsedResult prev, curr, tmp;
+        parse::ParsedResult prev, curr;
         Result merged_result;
 
-        for(unsigned i=1; i<r.size(); i++) {
-            curr = r[i];
-            prev = r[i-1];
+        for(unsigned i=0; i<r.size(); i++) {
+            prev = r[i];
 
-            if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
-                prev = mergeResult(t, prev, curr);
-                curr = tmp;
-                i++;
+            if(i + 1 < r.size()) {
+                curr = r[i+1];
+
+                if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
+                    prev = mergeResult(t, prev, curr);
+                    i++;
+                }
             }
             merged_result.push_back(prev);
         }
-        if(!prev.isEmpty()) {
-            merged_result.push_back(prev);  // if prev != null add to list of results
-        }
 
         return merged_result;
     }
-- 
2.43.0


From c54a9ef4839b8821e9b1b4e5826822f8ed71f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 23/42] fix: shift both ends of a range by the time zone

---
 src/result.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/result.cpp b/src/result.cpp
index 626db3b..b7de651 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -445,7 +445,7 @@ std::string ParsedResult::toDate() {
         if(getTag(utils::ExtractTimeZoneAbbreviation))
             ed += posix_time::minutes(startDate.getTimeZoneOffset());
 
-        res += " - " + posix_time::to_simple_string(posix_time::ptime_from_tm(date_end));
+        res += " - " + posix_time::to_simple_string(ed);
     }
 
     return res;
-- 
2.43.0


From ebb65d76f224895b0eaed9bbb685646d95ca6d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:22 +0000
Subject: [PATCH 24/42] fix: end "9pm - 1am" on the next day

---
 src/parsers/en/ENTimeExpressionParser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a851298..a95e4af 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -200,6 +200,14 @@
                 result.endDate.implyComponent("mday", ref.date().day());
                 result.endDate.implyComponent("month", ref.date().month());
                 result.endDate.implyComponent("year", ref.date().year());
+
+                if(result.endDate.date() < result.startDate.date()) {
+                    // Ex. 9pm - 1am
+                    gregorian::date nextDay{ref.date() + gregorian::days(1)};
+                    result.endDate.implyComponent("mday", nextDay.day());
+                    result.endDate.implyComponent("month", nextDay.month());
+                    result.endDate.implyComponent("year", nextDay.year());
+                }
             }
             return result;
         }
-- 
2.43.0


From 3f278ddfdf5c679600ff53ace977d02d54e55090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 25/42] fix: read HHMM times of the first hours, such as 0100
 and 0030

---
 src/parsers/en/ENTimeExpressionParser.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index a95e4af..57e1b95 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -70,7 +70,8 @@
             if(!match.str(MINUTE_GROUP).empty()) {
                 minute = std::stoi(match.str(MINUTE_GROUP));
             }
-            else if(hour > 100) {
+            else if(match.length(HOUR_GROUP) > 2 and std::isdigit(match.str(HOUR_GROUP)[0])) {
+                // Ex. 1730, 0030
                 minute = hour % 100;
                 hour = hour / 100;
             }
@@ -145,7 +146,7 @@
                 if(!match.str(TO_MINUTE_GROUP).empty()) {
                     to_minute = std::stoi(match.str(TO_MINUTE_GROUP));
                 }
-                else if(to_hour > 100) {
+                else if(match.length(TO_HOUR_GROUP) > 2 and std::isdigit(match.str(TO_HOUR_GROUP)[0])) {
                     to_minute = to_hour % 100;
                     to_hour = to_hour / 100;
                 }
-- 
2.43.0


From f60773a87be7448b5ce626d817d97400aa23cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 26/42] fix: do not add twelve hours to a 24-hour end of a time
 range

---
 src/parsers/en/ENTimeExpressionParser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 57e1b95..969fafc 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -170,7 +170,7 @@
                         if(to_hour != 12)
                             to_hour += 12;
                         if(match.str(AM_PM_HOUR_GROUP).empty()) {
-                            if(hour != 12) {
+                            if(hour < 12) {
                                 hour += 12;
                                 result.startDate.setHour(hour);
                             }
@@ -183,7 +183,7 @@
                         if(to_hour == 12)
                             to_hour = 0;
                     if(ampm_s == 'p')
-                        if(to_hour != 12)
+                        if(to_hour < 12)
                             to_hour += 12;
                 }
 
-- 
2.43.0


From df7737b4d5bc9a10033916dc6c71bb9c423443f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 27/42] fix: honour "early" and "late" directly before a
 weekday

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 06e3888..8bfcbd3 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -22,7 +22,7 @@
         std::regex getPattern() const override {
             static const std::regex PATTERN {
                 R"((\b))"
-                    R"((earl(?:ier|y)|late)?)"
+                    R"((?:(earl(?:ier|y)|late)\s*)?)"
                         R"((?:\s*(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
-- 
2.43.0


From 212f1de4af8a975ba0ad704cd646e8f731813860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 28/42] fix: do not read the year of an ISO date as the end of
 a time range

---
 src/parsers/en/ENTimeExpressionParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 969fafc..28a4b1a 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -28,7 +28,7 @@
                                  R"(O\W*CLOCK))?(?=\W|$))"
                                  R"( ?((^|\s*)(\-|\–|\~|\〜|to|\?)\s*(\d{1,4})(?:(?:\.|\:|\：))"
                                  R"((\d{1,2})(?:(?:\.|\:|\：)(\d{1,2})(?:\.(\d{1,6}))?)?)?(?:\s*)"
-                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b))?)", std::regex::icase);
+                                 R"((A\.M\.?|P\.M\.?|AM?|PM?|O\W*CLOCK))?(\b)(?!\-\d{1,2}\-\d))?)", std::regex::icase);
             return PATTERN;
         }
 
-- 
2.43.0


From 098b6d905d6775418389ae0a7a111b4494a6c8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 29/42] fix: keep times and zone offsets that leave the
 calendar out of the answer

---
 src/refiners/ExtractTimeZoneAbbreviation.hpp  | 22 +++++++++++++-----
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 23 +++++++++++++------
 src/result.cpp                                |  6 ++---
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/refiners/ExtractTimeZoneAbbreviation.hpp b/src/refiners/ExtractTimeZoneAbbreviation.hpp
index 065690c..43b7acf 100644
--- a/src/refiners/ExtractTimeZoneAbbreviation.hpp
+++ b/src/refiners/ExtractTimeZoneAbbreviation.hpp
@@ -30,16 +30,26 @@ public:
                     if(utils::DEFAULT_TIMEZONE_ABBR_MAP.find(tzAbbrev) != utils::DEFAULT_TIMEZONE_ABBR_MAP.end()) {
                         int offset = utils::DEFAULT_TIMEZONE_ABBR_MAP[tzAbbrev];
 
-                        if(!res.startDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                        parse::ParsedResult zoned{res};
+
+                        if(!zoned.startDate.isCertain("tzoffset")) {
+                            zoned.startDate.setTimeZoneOffset(offset);
                         }
 
-                        if(res.end() and !res.endDate.isCertain("tzoffset")) {
-                            res.startDate.setTimeZoneOffset(offset);
+                        if(zoned.end() and !zoned.endDate.isCertain("tzoffset")) {
+                            zoned.startDate.setTimeZoneOffset(offset);
                         }
 
-                        res.setText(match[1].str());
-                        res.setTag(utils::ExtractTimeZoneAbbreviation);
+                        zoned.setText(match[1].str());
+                        zoned.setTag(utils::ExtractTimeZoneAbbreviation);
+
+                        try {
+                            zoned.toDate();
+                            res = zoned;
+                        } // the offset leads out of the calendar
+                        catch (std::out_of_range& e) {
+                            std::cerr << e.what() << std::endl;
+                        }
                     }
                 }
             }
diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index 51b453f..fe49900 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -125,13 +125,22 @@ public:
             if(i + 1 < r.size()) {
                 curr = r[i+1];
 
-                if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
-                    prev = mergeResult(t, prev, curr);
-                    i++;
-                }
-                else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
-                    prev = mergeResult(t, curr, prev);
-                    i++;
+                try {
+                    parse::ParsedResult merged;
+                    if(isDateOnly(prev) and isTimeOnly(curr) and isAbleToMerge(t, prev, curr)) {
+                        merged = mergeResult(t, prev, curr);
+                    }
+                    else if(isDateOnly(curr) and isTimeOnly(prev) and isAbleToMerge(t, prev, curr)) {
+                        merged = mergeResult(t, curr, prev);
+                    }
+
+                    if(merged.hasPossibleDates()) {
+                        prev = merged;
+                        i++;
+                    }
+                } // together they leave the calendar
+                catch (std::out_of_range& e) {
+                    std::cerr << e.what() << std::endl;
                 }
             }
             merged_result.push_back(prev);
diff --git a/src/result.cpp b/src/result.cpp
index b7de651..7f6445c 100644
--- a/src/result.cpp
+++ b/src/result.cpp
@@ -394,10 +394,10 @@ bool ParsedResult::hasPossibleDates() {
         return false;
 
     try {
-        // e.g. February 30
-        startDate.date();
+        // e.g. February 30, or 24:00 on the last day of the calendar
+        posix_time::to_simple_string(startDate.date());
         if(end())
-            endDate.date();
+            posix_time::to_simple_string(endDate.date());
     }
     catch (std::out_of_range& e) {
         std::cerr << e.what() << std::endl;
-- 
2.43.0


From 4777fec8939056e750735381ea42f19de6b0ac7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 30/42] fix: do not take the space before "next monday", which
 hid the time before it

---
 src/parsers/en/ENDayOfTheWeekParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENDayOfTheWeekParser.hpp b/src/parsers/en/ENDayOfTheWeekParser.hpp
index 8bfcbd3..66b1535 100644
--- a/src/parsers/en/ENDayOfTheWeekParser.hpp
+++ b/src/parsers/en/ENDayOfTheWeekParser.hpp
@@ -23,7 +23,7 @@
             static const std::regex PATTERN {
                 R"((\b))"
                     R"((?:(earl(?:ier|y)|late)\s*)?)"
-                        R"((?:\s*(this|last|next)\s*)?)"
+                        R"((?:(this|last|next)\s*)?)"
                             R"((Sun(?:day)?|Mon(?:day)?|Tue(?:s(?:day)?)?|Wed(?:nesday)?|Thu(?:r(?:s(?:day)?)?)?|Fri(?:day)?|Sat(?:urday)?))"
                                 R"((?:\s*(this|last|next)\s*)?(?:(week)\s*)?)"
                 R"((\b))", /* part of pattern (on\s*)?*/
-- 
2.43.0


From 70e6655f5671a76bf6f7ceaa8672eaeea43bd43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 31/42] fix: place a month name where it stands, so that a time
 before it is not taken as overlapping it

---
 src/parsers/en/ENMonthNameParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/en/ENMonthNameParser.hpp b/src/parsers/en/ENMonthNameParser.hpp
index dc4b651..5ae4446 100644
--- a/src/parsers/en/ENMonthNameParser.hpp
+++ b/src/parsers/en/ENMonthNameParser.hpp
@@ -32,7 +32,7 @@
         parse::ParsedResult extract(std::string&, const std::smatch& match, const posix_time::ptime& ref, long idx)
         override {
             std::string text = match.str(0).substr(match.length(1));
-            parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
+            parse::ParsedResult result = parse::ParsedResult(ref, idx + match.length(1), text);
 
             short unsigned month = utils::MONTH_CONSTANTS[match.str(MONTH__NAME_GROUP)];
             short unsigned day = 1;
-- 
2.43.0


From e51127c98830b2fa8148d920593c826b3937e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 32/42] fix: do not end a range of days before its start or
 outside its month

---
 src/parsers/en/ENMonthNameMiddleEndianParser.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index dfbdc3d..3b2377b 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -147,12 +147,16 @@
                         endDate = utils::argToOrdinalValue(match.str(DATE_TO_GROUP)) :
                         endDate = std::stoi(match.str(DATE_TO_NUM_GROUP));
 
-                parse::ParsedComponents tmp{result.startDate};
-                tmp.set_mDay(endDate);
-                tmp.setHour(23);
-                tmp.setMinute(59);
-                result.endDate = tmp;
-                result.makeEndDateValid();
+                int lastDay = gregorian::gregorian_calendar::end_of_month_day(
+                        result.startDate.date().date().year(), month);
+                if(endDate >= day and endDate <= lastDay) {
+                    parse::ParsedComponents tmp{result.startDate};
+                    tmp.set_mDay(endDate);
+                    tmp.setHour(23);
+                    tmp.setMinute(59);
+                    result.endDate = tmp;
+                    result.makeEndDateValid();
+                }
             }
 
             result.setTag(utils::ENMonthNameMiddleEndianParser);
-- 
2.43.0


From 45ad94c5f8b29b1ce003f763d21c3f16f4a403d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 33/42] fix: find the nearest February 29 when the reference
 year has none

---
 .../en/ENMonthNameMiddleEndianParser.hpp      | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
index 3b2377b..e150e78 100644
--- a/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
+++ b/src/parsers/en/ENMonthNameMiddleEndianParser.hpp
@@ -117,16 +117,20 @@
                 result.startDate.setYear(year);
             }
             else {
-                gregorian::date dRef{ref.date().year(), month, day};
-                gregorian::date prevY{dRef - gregorian::years(1)},
-                        nextY{dRef + gregorian::years(1)};
-
-                if(std::abs((nextY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
-                    // compare the durations returned
-                    dRef = nextY;
+                // the nearest occurrence; February 29 is not in every year
+                gregorian::date dRef;
+                for(int y: {int(ref.date().year()), ref.date().year() + 1, ref.date().year() - 1}) {
+                    if(y < 1400 or y > 9999 or day > gregorian::gregorian_calendar::end_of_month_day(y, month))
+                        continue;
+
+                    gregorian::date occurrence(y, month, day);
+                    if(dRef.is_special() or
+                       std::abs((occurrence - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
+                        dRef = occurrence;
+                    }
                 }
-                else if(std::abs((prevY - ref.date()).days()) < std::abs((dRef - ref.date()).days())) {
-                    dRef = prevY;
+                if(dRef.is_special()) {
+                    return result;
                 }
 
                 result.startDate.set_mDay(day);
-- 
2.43.0


From 4a89f63f04454bfbe94f7f03a78eec935e8d2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 34/42] fix: accept 24:00 only as the end of the day, so that
 no range of times ends before it starts

---
 src/parsers/en/ENTimeExpressionParser.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/en/ENTimeExpressionParser.hpp b/src/parsers/en/ENTimeExpressionParser.hpp
index 28a4b1a..76bcac4 100644
--- a/src/parsers/en/ENTimeExpressionParser.hpp
+++ b/src/parsers/en/ENTimeExpressionParser.hpp
@@ -80,7 +80,8 @@
                 return result;
             }
 
-            if(hour > 24) {
+            // 24:00 is the end of the day, there is nothing after it
+            if(hour > 24 or (hour == 24 and (minute > 0 or result.startDate.getSeconds() > 0))) {
                 return result;
             }
 
-- 
2.43.0


From d26cd8232c6e83fb0ca69277a7f7639ad9942a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 35/42] fix: keep the seconds of the reference in "next half
 day"

---
 src/parsers/en/ENRelativeDateFormatParser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 0e0ac40..7ea26ee 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -145,6 +145,7 @@
                         result.startDate.implyComponent("mday", tmpTime.date().day());
                         result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                         result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
+                        result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
                         return result;
                     }
-- 
2.43.0


From b82cea3849e88b74ea8c85b21a074332ed63d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:15 +0000
Subject: [PATCH 36/42] fix: print the usage when the reference date can not be
 read, instead of aborting

---
 time.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/time.cpp b/time.cpp
index 9e578a0..e6b9f96 100644
--- a/time.cpp
+++ b/time.cpp
@@ -70,7 +70,17 @@ int main(int argc, char* argv[]) {
 
     if(argc == 3) {
         string refDate = argv[2];
-        t = posix_time::time_from_string(refDate);
+        try {
+            t = posix_time::time_from_string(refDate);
+        }
+        catch(std::bad_alloc&) {
+            throw;
+        } // not a date and time
+        catch(std::exception& err) {
+            std::cerr << err.what() << std::endl;
+            printUsage();
+            return 0;
+        }
     }
 
     for(auto& parser: parsers) {
-- 
2.43.0


From 8f6525655ba12c66791efce0ad59976dc3c2c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:13 +0000
Subject: [PATCH 37/42] fix: count with double, which holds every number of
 units exactly whatever the rounding mode

---
 src/parsers/en/ENDeadlineFormatParser.hpp     | 2 +-
 src/parsers/en/ENRelativeDateFormatParser.hpp | 6 +++---
 src/parsers/en/ENTimeAgoFormatParser.hpp      | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp          | 4 ++--
 src/utils/utils.cpp                           | 8 ++++----
 src/utils/utils.hpp                           | 4 ++--
 6 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 7c3a9bb..0e52e9a 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -33,7 +33,7 @@
             parse::ParsedResult result = parse::ParsedResult(ref, idx, text);
 
             std::string tmp = match.str(3);
-            float num;
+            double num;
             // check if integer is in integer_words
             if(utils::INTEGER_WORDS.find(tmp) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[tmp];
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index 7ea26ee..f0970f1 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -33,7 +33,7 @@
             std::regex dwmy(("day|week|month|year"), std::regex::icase);
 
             std::string num_label{match.str(MULTIPLIER_WORD_GROUP)};
-            float num{-1};
+            double num{-1};
 
             if(utils::INTEGER_WORDS.find(num_label) != utils::INTEGER_WORDS.end()) {
                 num = utils::INTEGER_WORDS[num_label];
@@ -49,7 +49,7 @@
             }
             else {
                 try {
-                    num = std::stof(num_label);
+                    num = std::stod(num_label);
                 }
                 catch (std::logic_error &l) {
                     std::cerr << l.what() << " :at ENRelativeDateFormatParser" << std::endl;
@@ -117,7 +117,7 @@
             if(std::regex_search(match.str(RELATIVE_WORD_GROUP), dwmy)) {
                 result.setTag(utils::ENRelativeDateFormatParser);
                 // posix_time::ptime tmpTime{ref};
-                /* NOTE: Since we used num as a float to support use of "few"
+                /* NOTE: Since we used num as a double to support use of "few"
                  *       I'll check if it's a fraction and use the lower denomination
                  *       e.g: for half a day, since boost supports only whole numbers,
                  *       you'll see posix_time::hours(12) instead of gregorian::days(0.5).
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 2324d5c..a17aacc 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -28,7 +28,7 @@
                 return result;
             }
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 1f9f8af..1dfda10 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -32,9 +32,9 @@
             if (match.position(0) > 0 and std::regex_match(tx.substr(match.position(0) - 1), std::regex("\\w")))
                 return result;
 
-            std::map<std::string, float> fragments = utils::extractDateTimeUnitFragments(match.str(2));
+            std::map<std::string, double> fragments = utils::extractDateTimeUnitFragments(match.str(2));
 
-            // tricky here turning the floats to ints
+            // tricky here turning the doubles to ints
             gregorian::date date{ref.date()};
             posix_time::ptime date_t{ref};
 
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 75c85b6..04208e4 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,8 +31,8 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
-std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string timeunitText) {
-    std::map<std::string, float> fragments;// = {};
+std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
+    std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
     std::smatch match;
 
@@ -46,9 +46,9 @@ std::map<std::string, float> utils::extractDateTimeUnitFragments(std::string tim
     return fragments;
 };
 
-std::map<std::string, float> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, float>& fragments) {
+std::map<std::string, double> utils::collectDateTimeFragment(std::smatch match, std::map<std::string, double>& fragments) {
     std::string _num = utils::toLowerCase(match[1].str());
-    float num;
+    double num;
 
     if (utils::INTEGER_WORDS.count(_num) > 0) {
         num = utils::INTEGER_WORDS[_num];
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 6cfcb45..07b3a85 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -194,9 +194,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
-    std::map<std::string, float> extractDateTimeUnitFragments(std::string);
+    std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
-    std::map<std::string, float> collectDateTimeFragment(std::smatch , std::map<std::string, float>& );
+    std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
 }
 
 
-- 
2.43.0


From 96f9dd0d251610e9021a33695fdbfebadeb4df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 38/42] fix: give no date for more weeks, months or years than
 the calendar has, instead of wrapping around

---
 src/parsers/en/ENDeadlineFormatParser.hpp     | 10 +++----
 src/parsers/en/ENRelativeDateFormatParser.hpp | 28 +++++++++----------
 src/parsers/en/ENTimeAgoFormatParser.hpp      | 14 ++++++----
 src/parsers/en/ENTimeLaterParser.hpp          | 13 +++++----
 src/parsers/en/ENWeekExperessionParser.hpp    |  4 +--
 src/utils/utils.cpp                           |  6 ++++
 src/utils/utils.hpp                           |  4 +++
 7 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index 0e52e9a..d154c91 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -78,7 +78,7 @@
             if(std::regex_search(unit, dwmy)) {
                 if(unit.find("day") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::days(num);
+                        tmpDate += gregorian::days(utils::atMost(3700000, num));
                     }
                     else {
                         tmpTime += posix_time::hours(12);
@@ -95,7 +95,7 @@
                 }
                 else if(unit.find("week") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::weeks(num);
+                        tmpDate += gregorian::weeks(utils::atMost(530000, num));
                     }
                     else {
                         tmpDate += gregorian::days(3);
@@ -103,7 +103,7 @@
                 }
                 else if(unit.find("month") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::months(num);
+                        tmpDate += gregorian::months(utils::atMost(120000, num));
                     }
                     else{
                         tmpDate += gregorian::days(15);
@@ -111,7 +111,7 @@
                 }
                 else if(unit.find("year") != std::string::npos) {
                     if(floor(num) == num) {
-                        tmpDate += gregorian::years(num);
+                        tmpDate += gregorian::years(utils::atMost(10000, num));
                     }
                     else {
                         tmpDate += gregorian::months(6);
@@ -127,7 +127,7 @@
 
             if(!unit.find("hour")) {
                 if(floor(num) == num) {
-                    tmpTime += posix_time::hours(static_cast<int>(num));
+                    tmpTime += posix_time::hours(utils::atMost(88000000, num));
                 }
                 else {
                     tmpTime += posix_time::minutes(30);
diff --git a/src/parsers/en/ENRelativeDateFormatParser.hpp b/src/parsers/en/ENRelativeDateFormatParser.hpp
index f0970f1..4ebf271 100644
--- a/src/parsers/en/ENRelativeDateFormatParser.hpp
+++ b/src/parsers/en/ENRelativeDateFormatParser.hpp
@@ -126,10 +126,10 @@
                 if(match.str(RELATIVE_WORD_GROUP).find("day") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::days(static_cast<int>(num));
+                            tmpDate += gregorian::days(utils::atMost(3700000, num));
                         }
                         else{
-                            tmpDate -= gregorian::days(static_cast<int>(num));
+                            tmpDate -= gregorian::days(utils::atMost(3700000, num));
                         }
                     }
                     else {
@@ -154,10 +154,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("week") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::weeks(static_cast<int>(num));
+                            tmpDate += gregorian::weeks(utils::atMost(530000, num));
                         }
                         else {
-                            tmpDate -= gregorian::weeks(static_cast<int>(num));
+                            tmpDate -= gregorian::weeks(utils::atMost(530000, num));
                         }
                     }
                     else {
@@ -173,10 +173,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("month") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::months(static_cast<int>(num));
+                            tmpDate += gregorian::months(utils::atMost(120000, num));
                         }
                         else {
-                            tmpDate -= gregorian::months(static_cast<int>(num));
+                            tmpDate -= gregorian::months(utils::atMost(120000, num));
                         }
                     }
                     else {
@@ -192,10 +192,10 @@
                 else if(match.str(RELATIVE_WORD_GROUP).find("year") != std::string::npos) {
                     if(std::floor(num) == num) {
                         if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                            tmpDate += gregorian::years(static_cast<int>(num));
+                            tmpDate += gregorian::years(utils::atMost(10000, num));
                         }
                         else {
-                            tmpDate -= gregorian::years(static_cast<int>(num));
+                            tmpDate -= gregorian::years(utils::atMost(10000, num));
                         }
                     }
                     else {
@@ -219,10 +219,10 @@
             if (match.str(RELATIVE_WORD_GROUP).find("hour") != std::string::npos) {
                 if (std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                        tmpTime += posix_time::hours(static_cast<int>(num));
+                        tmpTime += posix_time::hours(utils::atMost(88000000, num));
                     }
                     else {
-                        tmpTime -= posix_time::hours(static_cast<int>(num));
+                        tmpTime -= posix_time::hours(utils::atMost(88000000, num));
                     }
                 }
                 else {
@@ -236,10 +236,10 @@
             } else if (match.str(RELATIVE_WORD_GROUP).find("min") != std::string::npos) {
                 if(std::floor(num) == num) {
                     if (!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                        tmpTime += posix_time::minutes(static_cast<int>(num));
+                        tmpTime += posix_time::minutes(utils::atMost(std::numeric_limits<int>::max(), num));
                     }
                     else {
-                        tmpTime -= posix_time::minutes(static_cast<int>(num));
+                        tmpTime -= posix_time::minutes(utils::atMost(std::numeric_limits<int>::max(), num));
                     }
                 }
                 else {
@@ -253,10 +253,10 @@
             }
             else if(match.str(RELATIVE_WORD_GROUP).find("second") != std::string::npos) {
                 if(!match.str(MODIFIER_WORD_GROUP).compare("next")) {
-                    tmpTime += posix_time::seconds(static_cast<int>(num));
+                    tmpTime += posix_time::seconds(utils::atMost(std::numeric_limits<int>::max(), num));
                 }
                 else{
-                    tmpTime -= posix_time::seconds(static_cast<int>(num));
+                    tmpTime -= posix_time::seconds(utils::atMost(std::numeric_limits<int>::max(), num));
                 }
             }
 
diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index a17aacc..8e8c360 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -37,16 +37,15 @@
             for(const auto& a : fragments) {
                 try {
                     if(a.first == "year")
-                        date -= gregorian::years(static_cast<int> (a.second));
+                        date -= gregorian::years(utils::atMost(10000, a.second));
                     else if(a.first == "month")
-                        date -= gregorian::months(static_cast<int> (a.second));
+                        date -= gregorian::months(utils::atMost(120000, a.second));
                     else if(a.first == "week")            // this did not mean a literal week but rather a weekday
-                        date -= gregorian::weeks(a.second);
+                        date -= gregorian::weeks(utils::atMost(530000, a.second));
                     else if(a.first == "day")
-                        date -= gregorian::days(
-                                static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                        date -= gregorian::days(utils::atMost(3700000, a.second)); // you sure you wanna cast these bad boys?
                     else if(a.first == "hour")
-                        date_t -= posix_time::hours(static_cast<int> (a.second));
+                        date_t -= posix_time::hours(utils::atMost(88000000, a.second));
                     else if(a.first == "minute")
                         date_t -= posix_time::minutes(static_cast<int> (a.second));
                     else if(a.first == "second")
@@ -58,6 +57,9 @@
                 }
             }
 
+            if(date > gregorian::date(gregorian::max_date_time))
+                throw std::out_of_range("Year is out of valid range: 1400..9999");
+
             // the time units count from the day that the date units lead to
             date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
 
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 1dfda10..7f17676 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -41,19 +41,19 @@
             // add each of the elements in fragments to the date/ptime object
             for(auto a : fragments) {
                 if(a.first == "year") {
-                    date += gregorian::years(static_cast<int> (a.second));
+                    date += gregorian::years(utils::atMost(10000, a.second));
                 }
                 else if(a.first == "month") {
-                    date += gregorian::months(static_cast<int> (a.second));
+                    date += gregorian::months(utils::atMost(120000, a.second));
                 }
                 else if(a.first == "week") {            // this did not mean a literal week but rather a weekday
-                    date += gregorian::weeks(a.second);
+                    date += gregorian::weeks(utils::atMost(530000, a.second));
                 }
                 else if(a.first == "day") {
-                    date += gregorian::days(static_cast<int> (a.second)); // you sure you wanna cast these bad boys?
+                    date += gregorian::days(utils::atMost(3700000, a.second)); // you sure you wanna cast these bad boys?
                 }
                 else if(a.first == "hour") {
-                    date_t += posix_time::hours(static_cast<int> (a.second));
+                    date_t += posix_time::hours(utils::atMost(88000000, a.second));
                 }
                 else if(a.first == "minute") {
                     date_t += posix_time::minutes(static_cast<int> (a.second));
@@ -63,6 +63,9 @@
                 }
             }
 
+            if(date > gregorian::date(gregorian::max_date_time))
+                throw std::out_of_range("Year is out of valid range: 1400..9999");
+
             // the time units count from the day that the date units lead to
             date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
 
diff --git a/src/parsers/en/ENWeekExperessionParser.hpp b/src/parsers/en/ENWeekExperessionParser.hpp
index 0fa868c..8cb64ae 100644
--- a/src/parsers/en/ENWeekExperessionParser.hpp
+++ b/src/parsers/en/ENWeekExperessionParser.hpp
@@ -37,10 +37,10 @@
                 numberOfWeeks = word->second;
             }
             if(match.str(2).find("last") != std::string::npos) {
-                tmp -= gregorian::weeks(numberOfWeeks);
+                tmp -= gregorian::weeks(utils::atMost(530000, numberOfWeeks));
             }
             else if(match.str(2).find("next") != std::string::npos) {
-                tmp += gregorian::weeks(numberOfWeeks);
+                tmp += gregorian::weeks(utils::atMost(530000, numberOfWeeks));
             }
 
             result.startDate.implyComponent("year", tmp.year());
diff --git a/src/utils/utils.cpp b/src/utils/utils.cpp
index 04208e4..2b39d1e 100644
--- a/src/utils/utils.cpp
+++ b/src/utils/utils.cpp
@@ -31,6 +31,12 @@ std::string utils::keysToString(std::map<std::string, unsigned> arg) {
     return result;
 }
 
+int utils::atMost(int most, double count) {
+    if(count > most)
+        throw std::out_of_range("Year is out of valid range: 1400..9999");
+    return static_cast<int>(count);
+}
+
 std::map<std::string, double> utils::extractDateTimeUnitFragments(std::string timeunitText) {
     std::map<std::string, double> fragments;// = {};
     std::string remainingText{timeunitText};
diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index 07b3a85..f3cf6fb 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <limits>
 #include <map>
 #include <list>
 #include <regex>
@@ -194,6 +195,9 @@ namespace utils {
 
     static std::regex PATTERN_TIME_UNIT(TIME_UNIT, std::regex::icase);
 
+    // for the durations of boost, which wrap around when they are given more than they can hold
+    int atMost(int most, double count);
+
     std::map<std::string, double> extractDateTimeUnitFragments(std::string);
 
     std::map<std::string, double> collectDateTimeFragment(std::smatch , std::map<std::string, double>& );
-- 
2.43.0


From 3f5d3b57dfc4303389cebcc326ec904fc215934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 39/42] fix: keep the seconds of the reference in "in half a
 day"

---
 src/parsers/en/ENDeadlineFormatParser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/en/ENDeadlineFormatParser.hpp b/src/parsers/en/ENDeadlineFormatParser.hpp
index d154c91..fcf0e63 100644
--- a/src/parsers/en/ENDeadlineFormatParser.hpp
+++ b/src/parsers/en/ENDeadlineFormatParser.hpp
@@ -89,6 +89,7 @@
                         result.startDate.implyComponent("mday", tmpTime.date().day());
                         result.startDate.implyComponent("hour", tmpTime.time_of_day().hours());
                         result.startDate.implyComponent("min", tmpTime.time_of_day().minutes());
+                        result.startDate.implyComponent("sec", tmpTime.time_of_day().seconds());
 
                         return result;
                     }
-- 
2.43.0


From 9a09f0632eaadd45f83b91e1027e9a7b3dd0e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:53 +0000
Subject: [PATCH 40/42] fix: keep the time of day for a count of no hours,
 minutes or seconds

"0 minutes ago" names the moment it is asked, yet the time units were only
looked at when their count was positive, so the time of day was dropped and
the answer was midnight.
---
 src/parsers/en/ENTimeAgoFormatParser.hpp | 2 +-
 src/parsers/en/ENTimeLaterParser.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/en/ENTimeAgoFormatParser.hpp b/src/parsers/en/ENTimeAgoFormatParser.hpp
index 8e8c360..3cb5929 100644
--- a/src/parsers/en/ENTimeAgoFormatParser.hpp
+++ b/src/parsers/en/ENTimeAgoFormatParser.hpp
@@ -63,7 +63,7 @@
             // the time units count from the day that the date units lead to
             date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
 
-            if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
+            if(fragments.count("hour") or fragments.count("minute") or fragments.count("second")) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
                 result.startDate.setSeconds(date_t.time_of_day().seconds());
diff --git a/src/parsers/en/ENTimeLaterParser.hpp b/src/parsers/en/ENTimeLaterParser.hpp
index 7f17676..f3bd81c 100644
--- a/src/parsers/en/ENTimeLaterParser.hpp
+++ b/src/parsers/en/ENTimeLaterParser.hpp
@@ -69,7 +69,7 @@
             // the time units count from the day that the date units lead to
             date_t = posix_time::ptime(date) + (date_t - posix_time::ptime(ref.date()));
 
-            if(fragments["hour"] > 0 or fragments["minute"] > 0 or fragments["second"] > 0) {
+            if(fragments.count("hour") or fragments.count("minute") or fragments.count("second")) {
                 result.startDate.setHour(date_t.time_of_day().hours());
                 result.startDate.setMinute(date_t.time_of_day().minutes());
                 result.startDate.setSeconds(date_t.time_of_day().seconds());
-- 
2.43.0


From a8f9799442126734d2b17d99e5794fa457b4b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:56 +0000
Subject: [PATCH 41/42] fix: do not merge two times when the zone offset of one
 leads the other out of the calendar

The offset of the start is applied to both ends of a range, so "11:17p and
4 am wat" on the last day of the calendar aborted the program.
---
 src/refiners/en/ENMergeDateRangeRefiner.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/refiners/en/ENMergeDateRangeRefiner.hpp b/src/refiners/en/ENMergeDateRangeRefiner.hpp
index 1c794a4..9dc9091 100644
--- a/src/refiners/en/ENMergeDateRangeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateRangeRefiner.hpp
@@ -30,8 +30,15 @@ public:
                 curr = r[i+1];
 
                 if(!prev.end() and !curr.end() and isAbleToMerge(t, prev, curr)) {
-                    prev = mergeResult(t, prev, curr);
-                    i++;
+                    try {
+                        parse::ParsedResult merged = mergeResult(t, prev, curr);
+                        merged.toDate();
+                        prev = merged;
+                        i++;
+                    } // the zone's offset of one leads the other out of the calendar
+                    catch (std::out_of_range& e) {
+                        std::cerr << e.what() << std::endl;
+                    }
                 }
             }
             merged_result.push_back(prev);
-- 
2.43.0


From 98e19159fc25b9459a51bb99956f9ff38c623de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:59 +0000
Subject: [PATCH 42/42] fix: end a range of times on the next day after a range
 of one day, too

"november 2 - 2 9pm - 1am" ended twenty hours before it started.
---
 src/refiners/en/ENMergeDateAndTimeRefiner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
index fe49900..ce82253 100644
--- a/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
+++ b/src/refiners/en/ENMergeDateAndTimeRefiner.hpp
@@ -72,7 +72,7 @@ public:
 
             endDateTime = mergeDateTimeComponent(endDate, endTime);
 
-            if(!dateResult.end() and endDateTime.date() < startDateTime.date()) {
+            if(endDateTime.date() < startDateTime.date()) {
                 // Ex. 9pm - 1am
                 gregorian::date nextDay{endDateTime.date().date() + gregorian::days(1)};
                 if(endDateTime.isCertain("mday")) {
-- 
2.43.0

