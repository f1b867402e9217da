From cd393e13883c169d1afe5ba28d5fef0ad5b6cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 01/14] fix: refuse time text with fewer than three digits
 before the fraction (read uninitialised digits)

---
 .../src/Utilities/DateTime/timeStringToSecondsMills.c         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
index b0c56d1..ee5f151 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/timeStringToSecondsMills.c
@@ -85,6 +85,10 @@ float timeStringToSecondsMills(const char *timeString)
 			mills = (mills * 10) + idigits[i];
 		}
 		icount = milliFound;
+		if (icount < 3) {
+			//  Not enough digits before the fraction
+			return STATUS_NOT_OKAY;
+		}
 	}
 
 
-- 
2.43.0


From 8f5b6c40bf16cad716af69a4238ab39790868405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 02/14] fix: incrementTime returned undefined when the result
 is midnight starting 31Dec1899

---
 heclib/heclib_c/src/Utilities/DateTime/incrementTime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c b/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
index 7824a9f..31c058a 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/incrementTime.c
@@ -123,7 +123,7 @@ int incrementTime(int intervalSeconds, int numberPeriods,
 	if (intervalSeconds < SECS_IN_TRI_MONTH) {
 		// Do computations in 64 bit math in case we end up with very large numbers
 		lseconds = ((long long)intervalSeconds * (long long)numberPeriods) + (long long)*secondsEnd;
-		if ((lseconds < -SECS_IN_1_DAY) || (lseconds > SECS_IN_1_DAY)) {
+		if ((lseconds < 1) || (lseconds > SECS_IN_1_DAY)) {
 			day = (int)(lseconds / SECS_IN_1_DAY);
 			iremain = (int)(lseconds - ((long long)day * SECS_IN_1_DAY));
 			if (iremain < 1) {
-- 
2.43.0


From a899163d89e1a2973853593c157a69d39589074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 03/14] fix: numberPeriods counted months as years for the
 yearly interval

---
 heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
index 8e39f0d..ff677fc 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/numberPeriods.c
@@ -162,8 +162,8 @@ int numberPeriods(int intervalSeconds,
 		else if ((intervalMinutes > 520000) && (intervalMinutes < 530000)) {
 			//  Yearly
 			numberPeriods = (yearEnd - yearStart) +
-							((monthEnd - monthStart) +
-							((dayEnd - dayStart) / 28) / 12);
+							(((monthEnd - monthStart) +
+							((dayEnd - dayStart) / 28)) / 12);
 		}
 		else {
 			//  Unknown - just do straight day computation 
-- 
2.43.0


From f4b42d6fed99d3752f3fbcb60f13ddb9ee2cb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:42 +0000
Subject: [PATCH 04/14] fix: dayOfWeek returned values outside 1..7 for dates
 before 31Dec1899

---
 heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
index 6aa505f..ff0b29e 100644
--- a/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
+++ b/heclib/heclib_c/src/Utilities/DateTime/dayOfWeek.c
@@ -27,7 +27,9 @@ int dayOfWeek(int julian)
 {
 	int iday;
 
-	iday = (julian % 7) + 1;
+	iday = julian % 7;
+	if (iday < 0) iday += 7;  //  dates before 31Dec1899
+	iday++;
 	return iday;
 }
 
-- 
2.43.0


From 1273eebaaab4530d9511831267935c12491fe4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 05/14] fix: zpathnameGetPart used undefined positions for a
 text with no pathname part

---
 heclib/heclib_c/src/Public/zpathnameGetPart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameGetPart.c b/heclib/heclib_c/src/Public/zpathnameGetPart.c
index 74e745c..5018158 100644
--- a/heclib/heclib_c/src/Public/zpathnameGetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameGetPart.c
@@ -50,7 +50,11 @@ int zpathnameGetPart (const char *pathname, int partPosition, char *part, size_t
 		return STATUS_NOT_OKAY;
 	}
 
-	zpathnamePartPositions(pathname, strlen(pathname), positions, 7);
+	if (zpathnamePartPositions(pathname, strlen(pathname), positions, 7) < 1) {
+		//  Not a pathname (no parts)
+		part[0] = '\0';
+		return 0;
+	}
 	
 	end = positions[partPosition];	
 	start = positions[partPosition-1];
-- 
2.43.0


From 63df42d5bbaa4bc566a6fc39bfe3ef46b4a43bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 06/14] fix: zpathnameSetPart wrote outside the pathname
 (incomplete pathname, full buffer) and read before it

---
 heclib/heclib_c/src/Public/zpathnameSetPart.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameSetPart.c b/heclib/heclib_c/src/Public/zpathnameSetPart.c
index 3cd2d92..9a8b535 100644
--- a/heclib/heclib_c/src/Public/zpathnameSetPart.c
+++ b/heclib/heclib_c/src/Public/zpathnameSetPart.c
@@ -59,7 +59,10 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 
 	//  Determine the position of the part and
 	//  the lengths of the old and new parts
-	zpathnamePartPositions(pathname, strlen(pathname), positions, 7);
+	if (zpathnamePartPositions(pathname, strlen(pathname), positions, 7) != 7) {
+		//  Not a complete pathname (must have all six parts)
+		return STATUS_NOT_OKAY;
+	}
 	end = positions[partPosition];
 	start = positions[partPosition-1];
 	oldLength = end - start -1;
@@ -95,7 +98,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		//  To do this, we must increment negatively.
 		diff = newLength - oldLength;
 		endPath = positions[6] + diff;
-		if (endPath > (int)sizeofPathname) {
+		if (endPath >= (int)sizeofPathname) {
 			//  We don't have enough room to expand the pathname!
 			return STATUS_NOT_OKAY;
 		}
@@ -103,7 +106,7 @@ int zpathnameSetPart (char *pathname, size_t sizeofPathname, const char *part, i
 		pathname[endPath] = '\0';
 		endPath--;
 		//  Move the end backwards
-		for (i=endPath; i>=end; i--) {
+		for (i=endPath; i>=end-1+diff; i--) {
 			pathname[i] = pathname[i-diff];
 		}
 		//  Now copy the new part into the old part's position
-- 
2.43.0


From 7837ee96d122a6b7e0191fac056359a762e6f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 07/14] fix: zpathnameClean wrote its terminator past the end
 of a full buffer

---
 heclib/heclib_c/src/Public/zpathnameClean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Public/zpathnameClean.c b/heclib/heclib_c/src/Public/zpathnameClean.c
index 4cfdb8b..8a81122 100644
--- a/heclib/heclib_c/src/Public/zpathnameClean.c
+++ b/heclib/heclib_c/src/Public/zpathnameClean.c
@@ -72,7 +72,7 @@ int zpathnameClean(char *newPathname, size_t sizeofNewPathname, const char *oldP
 			//  Count slashes
 			slashCount++;
 		}
-		if (count >= (int)sizeofNewPathname) {
+		if (count >= (int)sizeofNewPathname - 1) {
 			//  Don't go beyond buffer length
 			break;
 		}
-- 
2.43.0


From febd5ad2f93fa0edc0b1009d87419c3097548b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 08/14] fix: wildcard *text read before a part shorter than
 text

---
 heclib/heclib_c/src/Internal/zcatComparePath.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zcatComparePath.c b/heclib/heclib_c/src/Internal/zcatComparePath.c
index 6761858..f00435b 100644
--- a/heclib/heclib_c/src/Internal/zcatComparePath.c
+++ b/heclib/heclib_c/src/Internal/zcatComparePath.c
@@ -174,6 +174,10 @@ int zcatComparePath(const char *cpath, int *partAction, int *lengths,
 			else if (partAction[i] == 3) {
 				//  Ends With
 				istart = len - lengths[i];
+				if (istart < 0) {
+					//  Part is shorter than what it has to end with
+					return 0;
+				}
 				result = zstringCompare(&pathPart[istart], stringToFind, (size_t)lengths[i]);
 				if (!result) {
 					return 0;
-- 
2.43.0


From dbe5c112173f7244dc7d9a50a900ed85c8fabff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:48 +0000
Subject: [PATCH 09/14] fix: a full reclaim table forgot its last extent, not
 its smallest

---
 heclib/heclib_c/src/Internal/zreleaseFileSpace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zreleaseFileSpace.c b/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
index f3d76bd..3c1ef3c 100644
--- a/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
+++ b/heclib/heclib_c/src/Internal/zreleaseFileSpace.c
@@ -69,6 +69,7 @@ void zreleaseFileSpace(long long *ifltab, long long address, int amountLongs)
 				}
 			}
 			if ((minMem > 0) && (amountLongs > minMem)){
+				ipos = loc;
 				reclaimArray[ipos] = amountLongs;
 				fileHeader[zdssFileKeys.kreclaimTotal] += amountLongs;
 				reclaimArray[ipos+1] = address;
-- 
2.43.0


From d8d47e45c1f8f479bb844e168e642eabec6b16ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:40 +0000
Subject: [PATCH 10/14] fix: adding the calling function to an error code
 lowered its severity (an error could become none)

---
 heclib/heclib_c/src/Internal/zerrorEncodeHigh.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
index 83b95f9..c9a9fc6 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncodeHigh.c
@@ -32,7 +32,13 @@
 
 int zerrorEncodeHigh(int errorCodeIn, int highFunction)
 {
-	errorCodeIn +=  highFunction * 1000000;
+	//  Plain status codes have no room for a function; error codes are negative.
+	if ((errorCodeIn > -10) || (highFunction == 0)) {
+		return errorCodeIn;
+	}
+	//  Replace the high function (the severity above it must not change)
+	errorCodeIn += ((-errorCodeIn / 1000000) % 100) * 1000000;
+	errorCodeIn -= highFunction * 1000000;
 	return errorCodeIn;
 }
 
-- 
2.43.0


From 8e4315834d7235c568be88a658adfe0652655670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:51 +0000
Subject: [PATCH 11/14] fix: a negative status changed the error number of an
 error code

---
 heclib/heclib_c/src/Internal/zerrorEncode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zerrorEncode.c b/heclib/heclib_c/src/Internal/zerrorEncode.c
index 0a3b165..90b38d9 100644
--- a/heclib/heclib_c/src/Internal/zerrorEncode.c
+++ b/heclib/heclib_c/src/Internal/zerrorEncode.c
@@ -53,6 +53,10 @@ int zerrorEncode(int severity, int highFunction, int lowFunction, int dssError,
 	if ((systemError > 99) || (systemError < -9)) {
 		systemError = 0;
 	}
+	//  A negative status must not borrow from the error number
+	if (systemError < 0) {
+		systemError = -systemError;
+	}
 	errorCode  =  systemError;
 	errorCode +=  dssError * 100;
 	errorCode +=  lowFunction * 10000;
-- 
2.43.0


From 0e641d8772218a56cd453306c3c5b92eff5884bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:58 +0000
Subject: [PATCH 12/14] fix: zbinUpdate keeps the chain of bins when no deleted
 entry of the size can be reused

---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index d3af688..48f7e0a 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -191,6 +191,15 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 					}
 				}
 			}
+			if (boolUseRecovered && (pathnameBin[icount+zdssBinKeys.kbinHash] == 0) &&
+				(ifltab[zdssKeys.kbinWithSpace] != 0) && (pathnameBin[isize-1] != 0)) {
+				//  No deleted record of this size in this bin, and there are bins after it
+				//  Use the last bin of the chain, as if there was nothing to recover
+				boolUseRecovered = 0;
+				ifltab[zdssKeys.kbinWithSpace] = 0;
+				ifltab[zdssKeys.kbinAddCurrent] = pathnameBin[isize-1];
+				break;
+			}
 			if ((pathnameBin[icount+zdssBinKeys.kbinHash] == 0) ||
 				(pathnameBin[icount+zdssBinKeys.kbinHash] == ifltab[zdssKeys.kpathnameHash])) {
 				//  Do we need to double check paths because of a collision?  (very rare)
-- 
2.43.0


From 6cf35e805562d44ecaf24e541531d9324564e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:58 +0000
Subject: [PATCH 13/14] fix: zbinUpdate stops when a new bin cannot be made

---
 heclib/heclib_c/src/Internal/zbinUpdate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/heclib/heclib_c/src/Internal/zbinUpdate.c b/heclib/heclib_c/src/Internal/zbinUpdate.c
index 48f7e0a..ee71032 100644
--- a/heclib/heclib_c/src/Internal/zbinUpdate.c
+++ b/heclib/heclib_c/src/Internal/zbinUpdate.c
@@ -248,7 +248,10 @@ int zbinUpdate(long long *ifltab, const char* pathname, long long infoAddress,
 							ifltab[zdssKeys.kbinAddCurrent], icount);
 						zmessageDebug(ifltab, DSS_FUNCTION_zbinUpdate_ID, "Bin full for address: ", messageString);
 					}
-					zbinNew(ifltab);
+					status = zbinNew(ifltab);
+					if (zisError(status)) {
+						return zerrorUpdate(ifltab, status, DSS_FUNCTION_zbinUpdate_ID);
+					}
 					fileHeader[zdssFileKeys.kbinsOverflow]++;
 					icount = 0;
 				}
-- 
2.43.0


From dadc46da39d56f21d909ffbf9c53e954b3b36512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:48 +0000
Subject: [PATCH 14/14] fix: zhash divided by zero for a hash table of size one

---
 heclib/heclib_c/src/Internal/zhash.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/heclib/heclib_c/src/Internal/zhash.c b/heclib/heclib_c/src/Internal/zhash.c
index c6fd794..8f9e906 100644
--- a/heclib/heclib_c/src/Internal/zhash.c
+++ b/heclib/heclib_c/src/Internal/zhash.c
@@ -149,6 +149,7 @@ int zhash (long long *ifltab, const char *pathname, int pathnameLength, int *tab
 	if (fraction == 0.50) {
 		ibit--;
 	}
+	if (ibit < 1) ibit = 1;
 
 	//  Find the number of characters that include full number groups
 	//  This rounds up to full number of 8 bit char to process when
-- 
2.43.0

