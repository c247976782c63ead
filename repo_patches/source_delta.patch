From ac34b0c799d417e909c1f1cf34a1cc97218a29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 01/41] fix: keep SAVE of single-rule policies and anchor
 policies without standard time

A policy whose only (remaining) Rule has a non-zero SAVE was silently converted
into a standard-time anchor, and a policy without any SAVE=0 Rule in the window
aborted the compiler with an AssertionError.
---
 src/acetimetools/transformer/transformer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..94e2615 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1368,7 +1368,7 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
@@ -2198,9 +2198,8 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
 
     # Find the earliest rule with a DSTOFF of 0. The `rules` array will
     # never be empty, but the [start_year, until_year) cutoff may eliminate
-    # too many rules which may result in no rule with DSTOFF of 0. In
-    # practice, I haven't seen this happen, so let's just throw an exception
-    # if that is the case. It would take extra logic to fix this.
+    # too many rules which may result in no rule with DSTOFF of 0. In that
+    # case, the anchor is standard time with an empty LETTER.
     anchor_info: AnchorInfo = {
         'earliestDate': (MAX_UNTIL_YEAR, 12, 31),
         'rule': None,
@@ -2230,8 +2229,11 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     # to the start of the ZoneEra transition, but they were using 2
     # different suffixes (9/30 24:00u versus 10/1 00:00w), and the current
     # zone_processor.py code was not able to handle them.
-    assert anchor_info['rule'] is not None
-    anchor_rule = anchor_info['rule'].copy()
+    if anchor_info['rule'] is None:
+        anchor_rule = rules[0].copy()
+        anchor_rule['letter'] = '-'
+    else:
+        anchor_rule = anchor_info['rule'].copy()
     _convert_to_anchor(anchor_rule)
     return anchor_rule
 
-- 
2.43.0


From 29af11d2cacd82dd6ea1022a2394540a4da09546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:09 +0000
Subject: [PATCH 02/41] fix: anchor LETTER when the only standard-time rules
 are after until_year

The abbreviation before the first transition lost its LETTER when every
SAVE=0 Rule of the policy was removed as too new.
---
 src/acetimetools/transformer/transformer.py | 31 ++++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 94e2615..4f01461 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -93,6 +93,9 @@ class Transformer:
         self.tiny_base_year = tiny_base_year
         self.include_list = include_list
 
+        # Initial LETTER of each policy before Rules were removed.
+        self.initial_letters: Dict[str, str] = {}
+
         self.all_removed_zones: CommentsMap = {}
         self.all_removed_policies: CommentsMap = {}
         self.all_removed_links: CommentsMap = {}
@@ -1023,6 +1026,7 @@ class Transformer:
         removed_policies: CommentsMap = {}
         for name, policy in policies_map.items():
             rules = policy['rules']
+            self.initial_letters[name] = find_initial_letter(rules)
             for rule in rules:
                 rule['truncated'] = compare_rule_to_interval(
                     rule, start_year, until_year)
@@ -1371,7 +1375,8 @@ class Transformer:
             if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
-                anchor_rule = _get_anchor_rule(rules)
+                anchor_rule = _get_anchor_rule(
+                    rules, self.initial_letters[name])
                 rules.insert(0, anchor_rule)
         return policies_map
 
@@ -1767,6 +1772,22 @@ def compare_rule_to_interval(
         return 0
 
 
+def find_initial_letter(rules: List[ZoneRuleRaw]) -> str:
+    """Find the LETTER of the earliest rule whose SAVE is 0, which determines
+    the abbreviation before the first transition. Return '-' (no letter) if
+    there is no such rule.
+    """
+    letter = '-'
+    earliest = (MAX_UNTIL_YEAR, 12)
+    for rule in rules:
+        rule_date = (rule['from_year'], rule['in_month'])
+        if (time_string_to_seconds(rule['delta_offset']) == 0
+                and rule_date < earliest):
+            earliest = rule_date
+            letter = rule['letter']
+    return letter
+
+
 def find_latest_prior_rules(
     rules: List[ZoneRuleRaw],
     year: int,
@@ -2187,7 +2208,9 @@ def _detect_tzdb_years(
     return min_year, max_year
 
 
-def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
+def _get_anchor_rule(
+    rules: List[ZoneRuleRaw], initial_letter: str,
+) -> ZoneRuleRaw:
     """Return the anchor rule that will act as the earliest rule with SAVE
     == 0.
     """
@@ -2199,7 +2222,7 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     # Find the earliest rule with a DSTOFF of 0. The `rules` array will
     # never be empty, but the [start_year, until_year) cutoff may eliminate
     # too many rules which may result in no rule with DSTOFF of 0. In that
-    # case, the anchor is standard time with an empty LETTER.
+    # case, the anchor is standard time with the initial LETTER of the policy.
     anchor_info: AnchorInfo = {
         'earliestDate': (MAX_UNTIL_YEAR, 12, 31),
         'rule': None,
@@ -2231,7 +2254,7 @@ def _get_anchor_rule(rules: List[ZoneRuleRaw]) -> ZoneRuleRaw:
     # zone_processor.py code was not able to handle them.
     if anchor_info['rule'] is None:
         anchor_rule = rules[0].copy()
-        anchor_rule['letter'] = '-'
+        anchor_rule['letter'] = initial_letter
     else:
         anchor_rule = anchor_info['rule'].copy()
     _convert_to_anchor(anchor_rule)
-- 
2.43.0


From 8f50bc75d10f1039093b96a6fbc81d2a393580bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 03/41] fix: clear UNTIL month, day and time of an era extended
 to infinity

When later eras were removed as too new, the extended final era kept the UNTIL
month, day, time and suffix of its source line: 'Sun>=1' and 'lastSun' aborted
the compiler (year 32767 is out of range), and scope basic removed the zone.
---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 4f01461..dae0c80 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -435,6 +435,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From a462bdd2dd29bb4da9db173a077ad4b1d90aff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 04/41] fix: upper limit of write_i32

`1 << 31 - 1` is `1 << 30`, so valid values in (2^30, 2^31) were refused.
---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From 65fc8cb708d618712f1945f95165dac7784f020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 05/41] fix: reject RULE ON 'Dow<=1' in January

It shifts to the previous year in 6 years out of 7, just like 'Dow<=2'.
---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index dae0c80..c1e8897 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1341,7 +1341,7 @@ class Transformer:
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
                     if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From 930b1431364a2c32fda8bf1c923ee0ace0439d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 06/41] fix: TypeError when reporting an invalid or negative AT

The f-string was formatted a second time with '%', which raised instead of
removing the policy with a reason.
---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index c1e8897..3be47e8 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1150,13 +1150,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From 341a55239aeade442a731cec3c0d0faffdd2c12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 07/41] fix: KeyError in CGenerator for scopes basic and
 extended

delta_minutes is calculated only for scope complete.
---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From 72e554fc9c46c5c769cee31c05e0f5f0a4b2ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 08/41] fix: check that SAVE in minutes fits in 1 byte for
 Arduino and C

A SAVE between 2:08 and 2:59 was emitted as an out of range int8_t in scope
complete. The same check already exists for RULES.
---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From b0865263054d9b3e18d8f9b7af1a8bad505c10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 09/41] fix: --granularity was ignored

It is documented to override the other granularity flags.
---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From 42675758d96de1ed47602a3d032eb3aa9bff1b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 10/41] fix: ValueError for a --tz_version that is not a TZDB
 version

tzcompiler.sh passes 'HEAD' when no --tag is given.
---
 src/acetimetools/datatypes/attyping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..6fc1a52 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -2,6 +2,7 @@
 #
 # MIT License
 
+import re
 from collections import OrderedDict
 from dataclasses import dataclass
 from typing import Collection
@@ -561,8 +562,10 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. Return 0 if the version is not of that form (e.g. 'HEAD').
     """
+    if not re.match('[0-9]{4}[a-z]', version):
+        return 0
     year = version[0:4]
     patch = version[4]
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From 089af76b08f95c10e52040581784f0670a905503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 11/41] fix: detect policies whose names normalize to the same
 symbol

For example, 'A-B' and 'A_B' both generated kZonePolicyA_B, and the second
definition replaced the first one in the Python database.
---
 src/acetimetools/transformer/transformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 3be47e8..54291a6 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -133,6 +133,7 @@ class Transformer:
         _detect_links_to_links(links_map)
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
+        _detect_policies_with_similar_names(policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2184,6 +2185,20 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """Policy names which normalize to the same symbol are a fatal error, just
+    like similar zone and link names.
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map.keys():
+        nname = normalize_name(policy_name)
+        if normalized_names.get(nname):
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From f1a78e5acd36c50c6b36d7686871ab0de4d94a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 12/41] fix: time strings accepted malformed components

'1:-05', '--1:00', '+1:00', '1_0:00' were converted to some number, and the
empty string raised an IndexError, instead of returning INVALID_SECONDS.
---
 src/acetimetools/transformer/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 54291a6..f07e89d 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1724,6 +1724,9 @@ def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
     """
+    if not re.fullmatch('-?[0-9]+(:[0-9]+){0,2}', time_string):
+        return INVALID_SECONDS
+
     sign = 1
     if time_string[0] == '-':
         sign = -1
-- 
2.43.0


From 3927611738563a34b53c5b4699386f31ebad1da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 13/41] fix: invalid day of month in ON and UNTIL day
 expressions

'Sun>=0' and 'Sun<=0' were read as 'lastSun', 'Sun>=-5' as 'Sun<=5', and days
above 31 were emitted as is.
---
 src/acetimetools/transformer/transformer.py | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index f07e89d..43f5bd2 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1693,7 +1693,7 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
 
     """
     if on_string.isdigit():
-        return (0, int(on_string))
+        return (0, _parse_day_of_month(on_string))
 
     if on_string[:4] == 'last':
         dayOfWeek = on_string[4:]
@@ -1704,22 +1704,32 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
     greater_than_equal_index = on_string.find('>=')
     if greater_than_equal_index >= 0:
         dayOfWeek = on_string[:greater_than_equal_index]
-        dayOfMonth = on_string[greater_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[greater_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], dayOfMonth)
 
     less_than_equal_index = on_string.find('<=')
     if less_than_equal_index >= 0:
         dayOfWeek = on_string[:less_than_equal_index]
-        dayOfMonth = on_string[less_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[less_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -dayOfMonth)
 
     return (0, 0)
 
 
+def _parse_day_of_month(day_string: str) -> int:
+    """Return the day of month between 1 and 31, or 0 if invalid."""
+    if not re.fullmatch('[0-9]+', day_string):
+        return 0
+    day = int(day_string)
+    return day if 1 <= day <= 31 else 0
+
+
 def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
-- 
2.43.0


From 1e32cf39613a0b4a98fc77ff3efa3405232928e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 14/41] fix: KeyError with --skip_bufestimator for Arduino and
 C

The kZoneBufSize constants, used only by validation tests, are left out.
---
 src/acetimetools/generator/argenerator.py | 8 +++++---
 src/acetimetools/generator/cgenerator.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/acetimetools/generator/argenerator.py b/src/acetimetools/generator/argenerator.py
index 386a626..fa76a82 100644
--- a/src/acetimetools/generator/argenerator.py
+++ b/src/acetimetools/generator/argenerator.py
@@ -394,9 +394,11 @@ extern const {self.scope}::ZoneInfo kZone{zone_normalized_name}; // {zone_name}
 const uint32_t kZoneId{zone_normalized_name} = 0x{zone_id:08x}; // {zone_name}
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
-            buf_sizes += f"""\
+            # There are no buf_sizes if --skip_bufestimator was given.
+            if self.buf_sizes:
+                buf_size = self.buf_sizes[zone_name].number
+                buf_year = self.buf_sizes[zone_name].year
+                buf_sizes += f"""\
 const uint8_t kZoneBufSize{zone_normalized_name} = {buf_size};  \
 // {zone_name} in {buf_year}
 """
diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..9e9f84a 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -401,9 +401,11 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name}; \
 /* {zone_name} */
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
-            zone_buf_sizes += f"""\
+            # There are no buf_sizes if --skip_bufestimator was given.
+            if self.buf_sizes:
+                buf_size = self.buf_sizes[zone_name].number
+                buf_year = self.buf_sizes[zone_name].year
+                zone_buf_sizes += f"""\
 #define k{self.db_namespace}ZoneBufSize{zone_normalized_name} {buf_size}  \
 /* {zone_name} in {buf_year} */
 """
-- 
2.43.0


From 565a7b5f7f1956ef0e8b7054c2ede549e0f9b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 15/41] fix: detect too large SAVE and RULES before writing any
 Go file

write_i8() refused them only after some files had been written, which left a
partial database behind.
---
 src/acetimetools/transformer/gotransformer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 471128a..71b0692 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -242,6 +242,11 @@ def _generate_zone_era_time_codes(zones_map: ZonesMap) -> None:
                     f"ERROR: Zone {name} should have delta_seconds "
                     "in units of one minute"
                 )
+            if not -128 <= era['go_era_delta_minutes'] <= 127:
+                raise Exception(
+                    f"ERROR: Zone {name} delta_seconds={delta_seconds} "
+                    "does not fit in 1 byte"
+                )
 
             # UntilSeconds
             until_seconds = era['until_seconds_truncated']
@@ -266,6 +271,11 @@ def _generate_zone_rule_time_codes(policies_map: PoliciesMap) -> None:
                     "in units of one minute"
                 )
             rule['go_delta_minutes'] = delta_seconds // 60
+            if not -128 <= rule['go_delta_minutes'] <= 127:
+                raise Exception(
+                    f"ERROR: Policy {name} delta_seconds={delta_seconds} "
+                    "does not fit in 1 byte"
+                )
 
             # AtSeconds
             at_seconds = rule['at_seconds_truncated']
-- 
2.43.0


From ea4485e80c573e30c04d876e9cd4866df7d41af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 16/41] fix: check that letterIndex, numRules and numEras fit
 in a uint8_t

Larger values were emitted and wrap around in the C and Arduino databases.
---
 src/acetimetools/transformer/artransformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 0584292..8926fde 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -100,6 +100,8 @@ class ArduinoTransformer:
         self.letters_map = _collect_letter_strings(self.policies_map)
         self.formats_map = _collect_format_strings(self.zones_map)
 
+        self._verify_counts()
+
         self._process_rules_from_to_at(self.policies_map)
         self._process_rules_letter(self.policies_map, self.letters_map)
         self._process_rules_delta(self.policies_map)
@@ -145,6 +147,19 @@ class ArduinoTransformer:
             f"; {len(tresult.links_map)} Links"
         )
 
+    def _verify_counts(self) -> None:
+        """Verify that letterIndex, numRules and numEras fit in a uint8_t."""
+        if len(self.letters_map) > 256:
+            raise Exception('Letter count exceeds uint8 max of 256')
+        for policy_name, policy in self.policies_map.items():
+            if len(policy['rules']) > 255:
+                raise Exception(
+                    f'{policy_name}: Rule count exceeds uint8 max of 255')
+        for zone_name, info in self.zones_map.items():
+            if len(info['eras']) > 255:
+                raise Exception(
+                    f'{zone_name}: Era count exceeds uint8 max of 255')
+
     def _process_rules_from_to_at(self, policies_map: PoliciesMap) -> None:
         """Convert the FROM, TO, and AT fields of ZoneRuleRaw into values that
         are consumed by the ZonePolicy classes of the Arduino AceTime library.
-- 
2.43.0


From 6254c3785479f357cb4a83449a13694c547b8f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 17/41] fix: a FROM or TO year saturated to a tiny year
 truncates the policy

Otherwise the database claimed to be accurate to infinity on that side.
---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 43f5bd2..e098d18 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1463,6 +1463,8 @@ class Transformer:
                     raise Exception(
                         f"{name}: from_year={from_year} not tiny")
                 rule['from_year_tiny'] = from_year_tiny
+                if from_year_tiny == MIN_YEAR_TINY and from_year != MIN_YEAR:
+                    policy['lower_rule_truncated'] = True
 
                 to_year = rule['to_year']
                 to_year_tiny = to_tiny_from_to_year(
@@ -1471,6 +1473,8 @@ class Transformer:
                     raise Exception(
                         f"{name}: to_year={to_year} not tiny")
                 rule['to_year_tiny'] = to_year_tiny
+                if to_year_tiny == MAX_TO_YEAR_TINY and to_year != MAX_TO_YEAR:
+                    policy['upper_rule_truncated'] = True
 
         return policies_map
 
-- 
2.43.0


From dc44b18b041ca428911d33660104bfab9be63160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 18/41] fix: check --db_namespace before writing any file

A missing --db_namespace was detected only after the Python files had been
written.
---
 src/acetimetools/tzcompiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index a80341d..ca66b45 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -428,6 +428,12 @@ def main() -> None:
         print(f'Invalid --languages: {languages - allowed_languages}')
         sys.exit(1)
 
+    # Validate --db_namespace before any file is written.
+    if ('zonedb' in actions and languages - set(['python'])
+            and not args.db_namespace):
+        print('Must provide --db_namespace')
+        sys.exit(1)
+
     # Configure logging. This should normally be executed after the
     # parser.parse_args() because it allows us set the logging.level using a
     # flag.
-- 
2.43.0


From ac4948cbb8aa0b323d0ea9cc8d3bce7c9b8dc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 19/41] fix: copytz.sh deleted files outside the target if
 CDPATH or '-' redirected cd, or paths had spaces

---
 copytz.sh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/copytz.sh b/copytz.sh
index 75c5898..b265e24 100755
--- a/copytz.sh
+++ b/copytz.sh
@@ -42,18 +42,24 @@ fi
 src=$1
 dst=$2
 
+# Prevent 'cd' from interpreting the target through $CDPATH, or as '-'.
+if [[ "$dst" != /* ]]; then
+    dst="./$dst"
+fi
+
 # Either the current repo, or perform a shallow clone at the given '$tag'.
-if [[ -e "$dst" ]]; then
+if [[ -e "$dst" || -L "$dst" ]]; then
     echo "ERROR: Cannot overwrite existing '$dst'"
     exit 1
 fi
 if [[ "$tag" == '' ]]; then
     echo "+ cp -a $src/ $dst/"
-    cp -a $src/ $dst/
+    cp -a "$src/" "$dst/"
 else
     # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
     echo "+ git clone --quiet --branch $tag $src $dst"
-    git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+    git -c advice.detachedHead=false clone --quiet --branch "$tag" \
+        "$src" "$dst"
 fi
 
 # Remove all files other than the zone info files with Rule and Zone entries.
@@ -63,8 +69,8 @@ fi
 # files.
 echo "+ rm -rf $dst/{clutter}"
 shopt -s extglob # in case it isn't enabled by default
-cd $dst
-rm -rf !(\
+cd "$dst"
+rm -rf -- !(\
 africa|\
 antarctica|\
 asia|\
-- 
2.43.0


From aaf0424c43e326017d0a4c7fa618a1a93f228478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 20/41] fix: tzcompiler.sh deleted a pre-existing tzfiles
 directory, or other paths if $PWD had spaces

---
 tzcompiler.sh | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..874f29b 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -19,7 +19,7 @@ set -eu
 shopt -s extglob # needed by copy_tzfiles()
 
 # Can't use $(realpath $(dirname $0)) because realpath doesn't exist on MacOS
-DIRNAME=$(dirname $0)
+DIRNAME=$(dirname "$0")
 
 # Location of the TZDB files after copying them from the source git repo.
 TZFILES=$PWD/tzfiles
@@ -34,7 +34,7 @@ function usage() {
 
 function clean_tzfiles() {
     echo "+ rm -rf $TZFILES"
-    rm -fr $TZFILES
+    rm -fr "$TZFILES"
 }
 
 # Copy the tz git repo at the specified tag. If no tag given, copy the current
@@ -45,19 +45,27 @@ function copy_tzfiles() {
     local dst=$2
 
     # Check for existence of $dst.
-    if [[ -e "$dst" ]]; then
+    if [[ -e "$dst" || -L "$dst" ]]; then
         echo "ERROR: Cannot overwrite existing '$dst'"
         exit 1
     fi
 
+    # Install a trap to delete the tzfile/ temp directory, but disable it if
+    # --nocleanup given for debugging. This must happen after the check above,
+    # so that a pre-existing $dst is never deleted.
+    if [[ $cleanup == 1 ]]; then
+        trap clean_tzfiles EXIT
+    fi
+
     # Copy or clone the repo, depending on the $tag.
     if [[ "$tag" == '' ]]; then
         echo "+ cp -a $src/ $dst/"
-        cp -a $src/ $dst/
+        cp -a "$src/" "$dst/"
     else
         # Check out TZDB repo at the $tag, unless --skip_checkout flag is given.
         echo "+ git clone --quiet --branch $tag $src $dst"
-        git -c advice.detachedHead=false clone --quiet --branch $tag $src $dst
+        git -c advice.detachedHead=false clone --quiet --branch "$tag" \
+            "$src" "$dst"
     fi
 
     # Remove all files other than the zone info files with Rule and Zone
@@ -66,7 +74,7 @@ function copy_tzfiles() {
     # directories. See src/acetimetools/extractor/extractor.py for the master
     # list of zone info files. This requires the 'shopt -s extglob' to be set.
     echo "+ rm -rf $dst/{clutter}"
-    (cd $dst; rm -rf !(\
+    (cd "$dst"; rm -rf -- !(\
 africa|\
 antarctica|\
 asia|\
@@ -86,10 +94,10 @@ function run_tzcompiler() {
         --output_dir $OUTPUT_DIR \
         --tz_version $tz_version \
         $@
-    $DIRNAME/src/acetimetools/tzcompiler.py \
-        --input_dir $TZFILES \
-        --output_dir $OUTPUT_DIR \
-        --tz_version $tz_version \
+    "$DIRNAME/src/acetimetools/tzcompiler.py" \
+        --input_dir "$TZFILES" \
+        --output_dir "$OUTPUT_DIR" \
+        --tz_version "$tz_version" \
         "$@"
 }
 
@@ -118,12 +126,6 @@ else
     tz_version=$tag
 fi
 
-# Install a trap to delete the tzfile/ temp directory, but disable it if
-# --nocleanup given for debugging.
-if [[ $cleanup == 1 ]]; then
-    trap clean_tzfiles EXIT
-fi
-
 # Do the actual work.
-copy_tzfiles $tzrepo $TZFILES
+copy_tzfiles "$tzrepo" "$TZFILES"
 run_tzcompiler "$@"
-- 
2.43.0


From 0ceb515ffbe1ff9e7b5dbf01158f9ae6326b21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 21/41] fix: Zone continuation lines that begin with a space
 were silently ignored

---
 src/acetimetools/extractor/extractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..8d978a2 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -176,9 +176,9 @@ class Extractor:
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0] == '\t' and in_zone_mode:
-                # Collect subsequent lines that begin with a TAB character into
-                # the current 'Zone' entry.
+            elif tag[0].isspace() and in_zone_mode:
+                # Collect subsequent lines that begin with a TAB character (or
+                # other white space) into the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
 
     def _process_rules(self) -> None:
-- 
2.43.0


From 81678249e1516882554144dfd3f2975469b6fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 22/41] fix: invalid lines were dropped, producing zones,
 policies and links with missing parts

---
 src/acetimetools/extractor/extractor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 8d978a2..8cf95f5 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -133,6 +133,7 @@ class Extractor:
         self._process_rules()
         self._process_zones()
         self._process_links()
+        self._verify_no_invalid_lines()
 
     def get_data(self) -> Tuple[PoliciesMap, ZonesMap, LinksMap]:
         """Return the extracted data maps."""
@@ -222,6 +223,17 @@ class Extractor:
             else:
                 self.links_map[link_name] = lines[0]
 
+    def _verify_no_invalid_lines(self) -> None:
+        """A zone, policy or link which is missing some of its lines is not the
+        one defined by the TZDB files, so an invalid line is a fatal error.
+        """
+        if (self.invalid_rule_lines or self.invalid_zone_lines
+                or self.invalid_link_lines):
+            raise Exception(
+                f"Invalid lines: {self.invalid_rule_lines} Rules, "
+                f"{self.invalid_zone_lines} Zones, "
+                f"{self.invalid_link_lines} Links")
+
     def print_summary(self) -> None:
         rule_entry_count = 0
         for name, policy in self.policies_map.items():
-- 
2.43.0


From 69003b9fe54afddbad28d0685ef3e58d6b1dedc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:01 +0000
Subject: [PATCH 23/41] fix: missing, extra and TYPE fields of Rule, Zone and
 Link lines were silently ignored

---
 src/acetimetools/extractor/extractor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 8cf95f5..62f32ba 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -167,6 +167,8 @@ class Extractor:
                 in_zone_mode = False
             elif tag == 'Link':
                 tokens = line.split()
+                if len(tokens) != 3:
+                    raise Exception(f'Wrong number of fields: {line}')
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
                 in_zone_mode = False
@@ -388,6 +390,10 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
     These represent transitions from Daylight to/from Standard.
     """
     tokens: List[str] = line.split()
+    if len(tokens) != 10:
+        raise Exception('Wrong number of fields')
+    if tokens[4] != '-':
+        raise Exception(f"Unsupported TYPE '{tokens[4]}'")
 
     # Check for valid year.
     from_year: int = int(tokens[2])
@@ -442,6 +448,8 @@ def _process_zone_line(line: str) -> ZoneEraRaw:
     -6:00    US     C%sT    1920
     """
     tokens: List[str] = line.split()
+    if not 3 <= len(tokens) <= 7:
+        raise Exception('Wrong number of fields')
 
     # STDOFF
     offset_string: str = tokens[0]
-- 
2.43.0


From 4d00b95e596d283128bab95716c83f1769316226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 24/41] fix: characters that break strings, comments or symbols
 of the generated code were accepted from the TZDB files

---
 src/acetimetools/extractor/extractor.py | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 62f32ba..f3abcef 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -69,6 +69,7 @@ from typing import TextIO
 from typing import Tuple
 import logging
 import os
+import re
 
 from acetimetools.datatypes.attyping import (
     ZoneRuleRaw,
@@ -81,6 +82,13 @@ from acetimetools.datatypes.attyping import (
 )
 
 
+# Characters of the TZDB fields which are copied verbatim into strings, comments
+# and identifiers of the generated files.
+NAME_REGEX = re.compile(r'[A-Za-z0-9_+./-]+')
+FORMAT_REGEX = re.compile(r'[A-Za-z0-9+%/-]+')
+LETTER_REGEX = re.compile(r'[A-Za-z0-9+-]+')
+
+
 class Extractor:
     """Reads each test data section from the given file-like object (e.g.
     sys.stdin).
@@ -162,19 +170,20 @@ class Extractor:
             tag: str = line[:4]
             if tag == 'Rule':
                 tokens: List[str] = line.split()
-                policy_name: str = tokens[1]
+                policy_name: str = _check_chars(tokens[1], NAME_REGEX)
                 _add_item(self.rule_lines, policy_name, line)
                 in_zone_mode = False
             elif tag == 'Link':
                 tokens = line.split()
                 if len(tokens) != 3:
                     raise Exception(f'Wrong number of fields: {line}')
-                link_name: str = tokens[2]
+                link_name: str = _check_chars(tokens[2], NAME_REGEX)
+                _check_chars(tokens[1], NAME_REGEX)
                 _add_item(self.link_lines, link_name, tokens[1])
                 in_zone_mode = False
             elif tag == 'Zone':
                 tokens = line.split()
-                zone_name: str = tokens[1]
+                zone_name: str = _check_chars(tokens[1], NAME_REGEX)
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
                 # prev_tag = tag
@@ -308,6 +317,13 @@ def _read_line(input: TextIO) -> Optional[str]:
         return line
 
 
+def _check_chars(field: str, regex: 're.Pattern[str]') -> str:
+    """Return the given field unchanged if all of its characters are valid."""
+    if not regex.fullmatch(field):
+        raise Exception(f'Invalid characters in field: {field!r}')
+    return field
+
+
 def _add_item(table: Dict[str, List[Any]], name: str, line: Any) -> None:
     array: Optional[List[Any]] = table.get(name)
     if not array:
@@ -419,7 +435,7 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
         'at_time': at_time,
         'at_time_suffix': at_time_suffix,
         'delta_offset': delta_offset,
-        'letter': tokens[9],
+        'letter': _check_chars(tokens[9], LETTER_REGEX),
         'raw_line': line,
     }
 
@@ -483,7 +499,7 @@ def _process_zone_line(line: str) -> ZoneEraRaw:
         until_time_suffix = 'w'
 
     # FORMAT
-    format: str = tokens[2]
+    format: str = _check_chars(tokens[2], FORMAT_REGEX)
 
     # Return map corresponding to a ZoneEra instance
     return {
-- 
2.43.0


From 587c9d9b20a28f8145adffe47cca2d66b32964b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 25/41] fix: unrecognized lines of the TZDB files were silently
 ignored

---
 src/acetimetools/extractor/extractor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index f3abcef..327c195 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -192,6 +192,8 @@ class Extractor:
                 # Collect subsequent lines that begin with a TAB character (or
                 # other white space) into the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
+            else:
+                raise Exception(f'Unrecognized line: {line}')
 
     def _process_rules(self) -> None:
         name: str
-- 
2.43.0


From 75a9d94fe8355408ed4baeeb0bd5b55f5c424a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 26/41] fix: 256 letters and more than 65535 zones and links
 overflowed the C and Arduino counts

---
 src/acetimetools/transformer/artransformer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 8926fde..dc2d5a0 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -148,9 +148,13 @@ class ArduinoTransformer:
         )
 
     def _verify_counts(self) -> None:
-        """Verify that letterIndex, numRules and numEras fit in a uint8_t."""
-        if len(self.letters_map) > 256:
-            raise Exception('Letter count exceeds uint8 max of 256')
+        """Verify that numLetters, numRules and numEras fit in a uint8_t, and
+        that the registry sizes fit in a uint16_t.
+        """
+        if len(self.letters_map) > 255:
+            raise Exception('Letter count exceeds uint8 max of 255')
+        if len(self.zones_map) + len(self.links_map) > 65535:
+            raise Exception('Zone and Link count exceeds uint16 max of 65535')
         for policy_name, policy in self.policies_map.items():
             if len(policy['rules']) > 255:
                 raise Exception(
-- 
2.43.0


From 8523db5ff5e3d533471b89d7151ccda806786b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 27/41] fix: Go count check ignored the links

---
 src/acetimetools/transformer/gotransformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index 71b0692..de6177a 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -65,8 +65,8 @@ class GoTransformer:
             tresult.zones_map)
         if era_count > 65535:
             raise Exception("Era count exceeds uint16 max of 65536")
-        if len(info_index_size_map) > 65535:
-            raise Exception("Info count exceeds uint16 max of 65535")
+        if len(zone_and_link_names) > 65535:
+            raise Exception("Zone and Link count exceeds uint16 max of 65535")
 
         _generate_zone_era_time_codes(tresult.zones_map)
         _generate_zone_rule_time_codes(tresult.policies_map)
-- 
2.43.0


From dd522ddbc65fd2353994b3cbac2aa6f69237d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:37 +0000
Subject: [PATCH 28/41] fix: the count of notable zones did not count zones
 notable because of their policies

---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 9e9f84a..95da37e 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -432,7 +432,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 13aaeac2fc1453b6d0f3a317facfa8e3116cdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 29/41] fix: days past the end of the month (e.g. UNTIL Feb 30)
 were emitted as if valid

---
 src/acetimetools/transformer/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index e098d18..4421aac 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -511,7 +511,10 @@ class Transformer:
                 # of month because we know the year.
                 (on_day_of_week, on_day_of_month) = \
                     _parse_on_day_string(until_day_string)
-                if (on_day_of_week, on_day_of_month) == (0, 0):
+                days_in_month = _days_in_month(
+                    era['until_year'], era['until_month'])
+                if ((on_day_of_week, on_day_of_month) == (0, 0)
+                        or abs(on_day_of_month) > days_in_month):
                     valid = False
                     add_comment(
                         removed_zones, name,
@@ -1329,8 +1332,11 @@ class Transformer:
             for rule in policy['rules']:
                 on_day = rule['on_day']
                 (on_day_of_week, on_day_of_month) = _parse_on_day_string(on_day)
+                # Use a leap year to allow Feb 29.
+                days_in_month = _days_in_month(2000, rule['in_month'])
 
-                if (on_day_of_week, on_day_of_month) == (0, 0):
+                if ((on_day_of_week, on_day_of_month) == (0, 0)
+                        or abs(on_day_of_month) > days_in_month):
                     valid = False
                     add_comment(
                         removed_policies, name,
-- 
2.43.0


From 6664550fa711d7208e24395834e895d2fd18a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 30/41] fix: a zone named like a generated symbol of another
 zone (IdA and A) was emitted

The C and Arduino files then defined the same symbol twice.
---
 src/acetimetools/transformer/transformer.py | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 4421aac..add383f 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -134,6 +134,7 @@ class Transformer:
         _detect_hash_collisions(zones_map=zones_map, links_map=links_map)
         _detect_zones_and_links_with_similar_names(zones_map, links_map)
         _detect_policies_with_similar_names(policies_map)
+        _detect_names_of_generated_symbols(zones_map, links_map, policies_map)
         original_min_year, original_max_year = \
             _detect_tzdb_years(zones_map, policies_map)
 
@@ -2222,6 +2223,32 @@ def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
         normalized_names[nname] = policy_name
 
 
+def _detect_names_of_generated_symbols(
+    zones_map: ZonesMap,
+    links_map: LinksMap,
+    policies_map: PoliciesMap,
+) -> None:
+    """The symbol of a zone or link (e.g. "kZoneIdle") is a fatal error if it is
+    also the symbol of something generated for another zone, link or policy
+    (e.g. "kZoneIdle", the id of a zone named "le"), or for the database.
+    """
+    names = [normalize_name(name) for name in [*zones_map, *links_map]]
+    policies = [normalize_name(name) for name in policies_map]
+    symbols = {
+        'Context', 'Registry', 'RegistrySize', 'AndLinkRegistry',
+        'AndLinkRegistrySize',
+    }
+    for prefix in ('Id', 'Name', 'Era', 'BufSize'):
+        symbols.update(prefix + name for name in names)
+    for prefix in ('Policy', 'Rules'):
+        symbols.update(prefix + name for name in policies)
+    for name in names:
+        if name in symbols:
+            raise Exception(
+                f"Symbol of zone or link {name} is a generated symbol"
+            )
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From faa8a6804c44ab206267e05272017c5547777d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 31/41] fix: a zone defined twice was read as one zone with the
 eras of both

---
 src/acetimetools/extractor/extractor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 327c195..0d80b4f 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -184,6 +184,8 @@ class Extractor:
             elif tag == 'Zone':
                 tokens = line.split()
                 zone_name: str = _check_chars(tokens[1], NAME_REGEX)
+                if zone_name in self.zone_lines:
+                    raise Exception(f'Duplicate zone: {line}')
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
                 # prev_tag = tag
-- 
2.43.0


From c82b73b00548c5c38817cee04ad474b516dbf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 32/41] fix: a policy used only by zones removed because of
 another policy was emitted

---
 src/acetimetools/transformer/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index add383f..b73081b 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -190,6 +190,7 @@ class Transformer:
 
         # Part 6: Remove unused zones and links, and verify some invariants.
         zones_map = self._remove_zones_without_rules(zones_map, policies_map)
+        policies_map = self._remove_unused_policies(zones_map, policies_map)
         links_map = self._remove_links_to_missing_zones(links_map, zones_map)
         self._verify_zones_until_year(zones_map)
         self._verify_policies_from_year(policies_map)
-- 
2.43.0


From 5c559295ca5279571dd5d0e5f56cab7cd2f0c583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:12 +0000
Subject: [PATCH 33/41] fix: the memory size of the Go policies did not count
 the emitted null policy

---
 src/acetimetools/transformer/gotransformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/gotransformer.py b/src/acetimetools/transformer/gotransformer.py
index de6177a..8395096 100644
--- a/src/acetimetools/transformer/gotransformer.py
+++ b/src/acetimetools/transformer/gotransformer.py
@@ -302,7 +302,7 @@ def _generate_memory_map(
         len(policy['rules'])
         for _, policy in policies_map.items()
     ])
-    num_policies = len(policies_map)
+    num_policies = len(policies_map) + 1  # include the "Null Policy"
     num_eras = sum([
         len(info['eras'])
         for _, info in zones_map.items()
-- 
2.43.0


From 9560af3894975ca3d9281509cfd70b54ab3249d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 34/41] fix: the memory size of the fragments did not count the
 emitted null entry

---
 src/acetimetools/transformer/artransformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index dc2d5a0..99d554e 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -400,7 +400,8 @@ class ArduinoTransformer:
         # Fragment and Letter strings are stored in separate arrays as
         # kFragments and kLetters. So we include the pointers to these.
         fragment_size = sum([len(s) + 1 for s in self.fragments_map.keys()])
-        fragment_size += len(self.fragments_map) * sizes['pointer']
+        # The kFragments array starts with an unused null pointer.
+        fragment_size += (len(self.fragments_map) + 1) * sizes['pointer']
         letter_size = sum([len(s) + 1 for s in self.letters_map.keys()])
         letter_size += len(self.letters_map) * sizes['pointer']
 
-- 
2.43.0


From 270986f7c4c302e6763b322bb29d0586abd84192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 35/41] fix: a NUL character in the TZDB files was copied into
 the generated files

---
 src/acetimetools/extractor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 0d80b4f..3220cd9 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -306,6 +306,10 @@ def _read_line(input: TextIO) -> Optional[str]:
         if line == '':
             return None
 
+        # The NUL character is not allowed by zic(1) either.
+        if '\0' in line:
+            raise Exception(f'NUL character in line: {line!r}')
+
         # remove trailing comments
         i = line.find('#')
         if i >= 0:
-- 
2.43.0


From fc6c3ab36f13889ec8974bdbb79c1d0160a0e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 36/41] fix: initial LETTER when two standard-time rules of a
 policy are in the same month

---
 src/acetimetools/transformer/transformer.py | 37 +++++++++++++++++----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index b73081b..cd56087 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1809,16 +1809,39 @@ def find_initial_letter(rules: List[ZoneRuleRaw]) -> str:
     there is no such rule.
     """
     letter = '-'
-    earliest = (MAX_UNTIL_YEAR, 12)
+    earliest = (MAX_UNTIL_YEAR, 12, 31, 0)
     for rule in rules:
-        rule_date = (rule['from_year'], rule['in_month'])
-        if (time_string_to_seconds(rule['delta_offset']) == 0
-                and rule_date < earliest):
+        if time_string_to_seconds(rule['delta_offset']) != 0:
+            continue
+        rule_date = (
+            *calc_rule_date(rule, rule['from_year']),
+            time_string_to_seconds(rule['at_time']),
+        )
+        if rule_date < earliest:
             earliest = rule_date
             letter = rule['letter']
     return letter
 
 
+def calc_rule_date(rule: ZoneRuleRaw, year: int) -> Tuple[int, int, int]:
+    """Return the (year, month, day) of the rule in the given year. The ON field
+    can shift the date to an adjacent month or year. An invalid ON is not
+    resolved, it will be detected later if the rule is used.
+    """
+    month = rule['in_month']
+    on_day_of_week, on_day_of_month = _parse_on_day_string(rule['on_day'])
+    try:
+        month, day = calc_day_of_month(
+            year, month, on_day_of_week, on_day_of_month)
+    except (ValueError, OverflowError):
+        return (year, month, abs(on_day_of_month))
+    if month == 0:
+        return (year - 1, 12, day)
+    if month == 13:
+        return (year + 1, 1, day)
+    return (year, month, day)
+
+
 def find_latest_prior_rules(
     rules: List[ZoneRuleRaw],
     year: int,
@@ -2286,7 +2309,7 @@ def _get_anchor_rule(
     == 0.
     """
     AnchorInfo = TypedDict('AnchorInfo', {
-        'earliestDate': Tuple[int, int, int],
+        'earliestDate': Tuple[int, int, int, int],
         'rule': Optional[ZoneRuleRaw],
     })
 
@@ -2295,7 +2318,7 @@ def _get_anchor_rule(
     # too many rules which may result in no rule with DSTOFF of 0. In that
     # case, the anchor is standard time with the initial LETTER of the policy.
     anchor_info: AnchorInfo = {
-        'earliestDate': (MAX_UNTIL_YEAR, 12, 31),
+        'earliestDate': (MAX_UNTIL_YEAR, 12, 31, 0),
         'rule': None,
     }
     for rule in rules:
@@ -2305,7 +2328,7 @@ def _get_anchor_rule(
         on_day_of_month = rule['on_day_of_month']
         month, day = calc_day_of_month(
             from_year, in_month, on_day_of_week, on_day_of_month)
-        rule_date = (from_year, month, day)
+        rule_date = (from_year, month, day, rule['at_seconds'])
 
         if (rule['delta_seconds'] == 0
                 and rule_date < anchor_info['earliestDate']):
-- 
2.43.0


From a28e72250e2a3d15eca803967bc846856cebfb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 37/41] fix: latest rules before start_year were determined
 without the shift of their ON and AT fields

---
 src/acetimetools/transformer/transformer.py | 36 ++++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index cd56087..652e9f8 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1846,11 +1846,11 @@ def find_latest_prior_rules(
     rules: List[ZoneRuleRaw],
     year: int,
 ) -> List[ZoneRuleRaw]:
-    """Find the most recent prior rules before the given year. The RULE.at_time
-    field can be a conditional expression such as 'lastSun' or 'Mon>=8', so it's
-    easiest to just compare the (year, month) only. Also, instead of looking for
-    the single Rule that is the most recent, we grab all Rules that fit into the
-    month bucket. There are 2 reasons:
+    """Find the most recent prior rules before the given year. The ON
+    field can be a conditional expression such as 'Sun<=1' or 'Mon>=29', so we
+    compare the actual date of the Rule. Also, instead of looking for the single
+    Rule that is the most recent, we grab all Rules that fit into the month
+    bucket. There are 2 reasons:
 
     1) A handful of Zone Policies have multiple Rules in the same month. From
     _remove_rules_multiple_transitions_in_month():
@@ -1870,18 +1870,22 @@ def find_latest_prior_rules(
     By grabbing all Rules in the last month, we avoid the risk of accidentally
     leaving some Rules out.
     """
+    priors = [
+        (calc_rule_date(rule, rule['to_year']), rule)
+        for rule in rules if rule['to_year'] < year
+    ]
+    if not priors:
+        return []
+
+    # The AT field can shift a transition by up to 2 days, so keep also the
+    # rules which are that close to the latest one, but in the previous month.
+    latest = max(date for date, _ in priors)
+    month_index = latest[0] * 12 + latest[1]
     candidates = []
-    candidate_date = (0, 0)  # sentinel date earlier than all real Rules
-    for rule in rules:
-        rule_year = rule['to_year']
-        rule_month = rule['in_month']
-        if rule_year < year:
-            rule_date = (rule_year, rule_month)
-            if rule_date > candidate_date:
-                candidate_date = rule_date
-                candidates = [rule]
-            elif rule_date == candidate_date:
-                candidates.append(rule)
+    for date, rule in priors:
+        months = month_index - (date[0] * 12 + date[1])
+        if months == 0 or (months == 1 and latest[2] <= 2 and date[2] >= 27):
+            candidates.append(rule)
     return candidates
 
 
-- 
2.43.0


From ef31073bba5f628cfc718344c240651884c3d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:18 +0000
Subject: [PATCH 38/41] fix: eras whose UNTIL became equal by truncation were
 emitted

In --nostrict mode the UNTIL times of consecutive eras of a zone can become
equal when they are truncated to --until_at_granularity. The check for
increasing UNTIL was done on the original values.
---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 652e9f8..1457ff8 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -942,7 +942,7 @@ class Transformer:
                     era['until_year'],
                     era['until_month'] if era['until_month'] else 0,
                     era['until_day'] if era['until_day_string'] else 0,
-                    era['until_seconds'] if era['until_seconds'] else 0
+                    era['until_seconds_truncated']
                 )
                 if prev_until:
                     if c <= prev_until:
-- 
2.43.0


From 269076646f044ff99f74404f3feeb9ebe87de94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 39/41] fix: zones with decreasing UNTIL years were emitted if
 the misplaced era was filtered out

The eras which are too old or too new are removed before the check for
increasing UNTIL, so that a misplaced era could be removed, and the remaining
eras were emitted as if they were valid.
---
 src/acetimetools/transformer/transformer.py | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 1457ff8..676615a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -145,6 +145,7 @@ class Transformer:
         expected_links_count = len(links_map)
 
         # Part 3: Transform the zones_map.
+        zones_map = self._remove_zones_with_decreasing_until_year(zones_map)
         zones_map = self._remove_zone_eras_too_old(zones_map)
         zones_map = self._remove_zone_eras_too_new(zones_map)
         zones_map = self._extend_zone_eras_until(zones_map)
@@ -347,6 +348,29 @@ class Transformer:
     # Part 3: Transform the zones_map.
     # --------------------------------------------------------------------
 
+    def _remove_zones_with_decreasing_until_year(
+        self, zones_map: ZonesMap,
+    ) -> ZonesMap:
+        """Remove zones whose UNTIL years decrease. This must be detected before
+        the eras which are too old or too new are removed, because a misplaced
+        era could be one of them.
+        """
+        results: ZonesMap = {}
+        removed_zones: CommentsMap = {}
+        for name, info in zones_map.items():
+            years = [era['until_year'] for era in info['eras']]
+            if years == sorted(years):
+                results[name] = info
+            else:
+                add_comment(
+                    removed_zones, name, f'decreasing UNTIL years: {years}')
+
+        self._print_comments_map(
+            'Removed %s zone infos with decreasing UNTIL years', removed_zones,
+        )
+        merge_comments(self.all_removed_zones, removed_zones)
+        return results
+
     def _remove_zone_eras_too_old(self, zones_map: ZonesMap) -> ZonesMap:
         """Remove zone eras which are too old, i.e. before (self.start_year-1).
         If the start_year is 2000, ZoneProcessor.init_for_year() could be called
-- 
2.43.0


From 1fd1abed04973d1480309567582e23dd7d94f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 40/41] fix: rules with FROM later than TO were accepted

---
 src/acetimetools/extractor/extractor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 3220cd9..29259a6 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -428,6 +428,8 @@ def _process_rule_line(line: str) -> ZoneRuleRaw:
         to_year = MAX_TO_YEAR
     else:
         to_year = int(to_year_string)
+    if from_year > to_year:
+        raise Exception(f'FROM {from_year} is after TO {to_year}')
 
     in_month: int = month_to_index(tokens[5])
     on_day: str = tokens[6]
-- 
2.43.0


From 1f15fda8d1bb95c6aba1facd61aa65c6c12ce3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:29 +0000
Subject: [PATCH 41/41] fix: keywords which only begin with Rule, Zone or Link
 were accepted

---
 src/acetimetools/extractor/extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index 29259a6..d74f5e9 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -167,7 +167,9 @@ class Extractor:
             if line is None:
                 break
 
-            tag: str = line[:4]
+            # A continuation line begins with a white space, and has no tag.
+            tag: str = (
+                '' if line[0].isspace() else line.split(maxsplit=1)[0])
             if tag == 'Rule':
                 tokens: List[str] = line.split()
                 policy_name: str = _check_chars(tokens[1], NAME_REGEX)
@@ -190,7 +192,7 @@ class Extractor:
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0].isspace() and in_zone_mode:
+            elif not tag and in_zone_mode:
                 # Collect subsequent lines that begin with a TAB character (or
                 # other white space) into the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
-- 
2.43.0

