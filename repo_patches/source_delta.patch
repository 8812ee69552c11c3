From a14b604a8502a2e5a25529d1cc3052cf53fa2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 01/34] fix: do not split short option bundles at '-', '=' or
 whitespace

A bundle such as -a-b was rewritten to --b (and -a- to the options
terminator --), and -a=b left -=b to be taken as a positional argument.
---
 packages/core/src/primitives.ts | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 33cec13..fd5262d 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -67,6 +67,15 @@ function hasParsedOptionValue<M extends Mode, T>(
     (state as { value?: boolean }).value === true;
 }
 
+/**
+ * Returns whether a token is a bundle of short options (e.g., `-abc`) that
+ * starts with the given short option (e.g., `-a`).  Neither `-a-b` nor `-a=b`
+ * is a bundle, since their remainders are not short option names.
+ */
+function isShortOptionBundle(token: string, shortOption: string): boolean {
+  return token.startsWith(shortOption) && /^[^-=\s]/.test(token.slice(2));
+}
+
 function isTerminalValueState<T>(
   state: ValueParserResult<T> | undefined,
 ): boolean {
@@ -1201,7 +1210,7 @@ export function option<M extends Mode, T>(
           (name) => name.match(/^-[^-]$/),
         );
         for (const shortOption of shortOptions) {
-          if (!context.buffer[0].startsWith(shortOption)) continue;
+          if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
           if (hasParsedOptionValue(context.state, valueParser)) {
             return {
               success: false,
@@ -1756,7 +1765,7 @@ export function flag(
         (name) => name.match(/^-[^-]$/),
       );
       for (const shortOption of shortOptions) {
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         if (context.state?.success) {
           return {
             success: false,
@@ -2231,7 +2240,7 @@ export function negatableFlag(
 
       for (const shortOption of optionNames) {
         if (!shortOption.match(/^-[^-]$/)) continue;
-        if (!context.buffer[0].startsWith(shortOption)) continue;
+        if (!isShortOptionBundle(context.buffer[0], shortOption)) continue;
         return parseMatchedNegatableFlag(
           context,
           shortOption,
-- 
2.43.0


From f2fe9a4741d9a77b00825fb823fc1cf2a1721f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 02/34] fix: do not take a joined option such as --opt=value as
 a positional argument

A repeated --opt=value, or --flag=value for a Boolean flag, was silently
captured by a free argument() instead of being rejected.
---
 packages/core/src/primitives.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index fd5262d..3369e9f 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -76,6 +76,17 @@ function isShortOptionBundle(token: string, shortOption: string): boolean {
   return token.startsWith(shortOption) && /^[^-=\s]/.test(token.slice(2));
 }
 
+/**
+ * Returns whether a token joins the name of an option found in the given usage
+ * with a value, e.g., `--option=value` or `-o=value`.
+ */
+function isJoinedOption(token: string, usage: Usage): boolean {
+  if (!token.startsWith("-") || !token.includes("=")) return false;
+  return [...extractOptionNames(usage, true)].some((name) =>
+    token.startsWith(`${name}=`)
+  );
+}
+
 function isTerminalValueState<T>(
   state: ValueParserResult<T> | undefined,
 ): boolean {
@@ -2494,7 +2505,10 @@ export function argument<M extends Mode, T>(
         if (context.buffer[i] === "--") {
           optionsTerminated = true;
           i++;
-        } else if (context.buffer[i].match(optionPattern)) {
+        } else if (
+          context.buffer[i].match(optionPattern) ||
+          isJoinedOption(context.buffer[i], context.usage)
+        ) {
           return {
             success: false,
             consumed: i,
-- 
2.43.0


From e0fce0d03c2cbdc85d212ba5f962ce40db3b113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 03/34] fix: keep longestMatch() from dropping input consumed
 by another branch

After one branch had consumed tokens, a later parse step could switch to
another branch that never saw them, so e.g. -p 0 -v -c x silently lost -p 0.
---
 packages/core/src/constructs.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 347eeba..291cccf 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -4419,6 +4419,13 @@ function createLongestMatch(
       })(),
   });
 
+  // Once a parser has consumed input, the other parsers cannot win anymore:
+  // they did not see that input, so switching to them would silently drop it.
+  const getCommittedIndex = (state: ExclusiveState): number | undefined =>
+    state != null && state[1].success && state[1].consumed.length > 0
+      ? state[0]
+      : undefined;
+
   // Sync parse implementation
   const parseSync = (
     context: ParserContext<LongestMatchState>,
@@ -4431,9 +4438,11 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const committedIndex = getCommittedIndex(activeState);
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < syncParsers.length; i++) {
+      if (committedIndex != null && committedIndex !== i) continue;
       const parser = syncParsers[i];
       const result = parser.parse(
         withChildContext(
@@ -4509,9 +4518,11 @@ function createLongestMatch(
     } | null = null;
     let error = getInitialError(context);
     const activeState = normalizeExclusiveState(context.state);
+    const committedIndex = getCommittedIndex(activeState);
 
     // Try all parsers and find the one with longest match
     for (let i = 0; i < parsers.length; i++) {
+      if (committedIndex != null && committedIndex !== i) continue;
       const parser = parsers[i];
       const resultOrPromise = parser.parse(
         withChildContext(
-- 
2.43.0


From d4ddac8085f19dc11bd3282299f3595c0ee60ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 04/34] fix: replay exactly the input a branch consumed before
 or() switches to another

Only the tokens of the last parse step were compared, so 'b -f -y' could
switch from command b to an alternative sharing -f and lose the b; and the
tokens before an options terminator were replayed as positionals, while an
alternative taking positionals rejected '-- a'.
---
 packages/core/src/constructs.ts | 132 ++++++++++++++++++++++++++------
 1 file changed, 107 insertions(+), 25 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 291cccf..7f44ee1 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -1242,6 +1242,51 @@ function createExclusiveState(
   ) as ExclusiveState;
 }
 
+/**
+ * Accumulates the input an exclusive branch consumes over several parse steps,
+ * so that a later switch to another branch takes all of it into account.
+ * @internal
+ */
+function continueExclusiveBranch(
+  activeState: ExclusiveState,
+  index: number,
+  result: ParserResult<unknown>,
+): ParserResult<unknown> {
+  if (
+    !result.success || activeState?.[0] !== index || !activeState[1].success
+  ) {
+    return result;
+  }
+  return {
+    ...result,
+    consumed: [...activeState[1].consumed, ...result.consumed],
+  };
+}
+
+/**
+ * Determines the input a branch has to consume again before an exclusive
+ * choice may switch to it from a branch that has consumed it first.  That
+ * input was read before the options terminator among it (if any) took effect,
+ * and a trailing terminator needs not to be consumed again: its effect is kept
+ * in the context.
+ * @internal
+ */
+function getSharedInput(
+  context: ParserContext<unknown>,
+  consumed: readonly string[],
+): { readonly buffer: readonly string[]; readonly optionsTerminated: boolean } {
+  const terminator = consumed.indexOf("--");
+  if (!context.optionsTerminated || terminator < 0) {
+    return { buffer: consumed, optionsTerminated: context.optionsTerminated };
+  }
+  return {
+    buffer: terminator === consumed.length - 1
+      ? consumed.slice(0, -1)
+      : consumed,
+    optionsTerminated: false,
+  };
+}
+
 /**
  * Creates a complete() method shared by or() and longestMatch().
  * @internal
@@ -3334,16 +3379,21 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResult = parser.parse({
+          const sharedInput = getSharedInput(context, previouslyConsumed);
+          const sharedContext = {
             ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
+            ...sharedInput,
+          };
+          const checkResult: ParserResult<unknown> =
+            sharedInput.buffer.length > 0
+              ? parser.parse(sharedContext)
+              : { success: true, next: sharedContext, consumed: [] };
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
           const canConsumeShared = checkResult.success &&
-            checkResult.consumed.length === previouslyConsumed.length &&
+            checkResult.consumed.length === sharedInput.buffer.length &&
             checkResult.consumed.every((c, idx) =>
-              c === previouslyConsumed[idx]
+              c === sharedInput.buffer[idx]
             );
           if (!canConsumeShared) {
             return {
@@ -3418,7 +3468,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              continueExclusiveBranch(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3509,7 +3564,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              continueExclusiveBranch(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3528,18 +3587,23 @@ export function or(
       // commit to it after replaying.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = provisionalConsuming.parser.parse({
+        const sharedInput = getSharedInput(context, previouslyConsumed);
+        const sharedContext = {
           ...withChildContext(
             context,
             provisionalConsuming.index,
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          buffer: previouslyConsumed,
-        });
+          ...sharedInput,
+        };
+        const checkResult: ParserResult<unknown> =
+          sharedInput.buffer.length > 0
+            ? provisionalConsuming.parser.parse(sharedContext)
+            : { success: true, next: sharedContext, consumed: [] };
         const canConsumeShared = checkResult.success &&
-          checkResult.consumed.length === previouslyConsumed.length &&
-          checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
+          checkResult.consumed.length === sharedInput.buffer.length &&
+          checkResult.consumed.every((c, idx) => c === sharedInput.buffer[idx]);
         if (canConsumeShared && checkResult.success) {
           const replayExec = mergeChildExec(
             context.exec,
@@ -3714,17 +3778,21 @@ export function or(
           // Different branch succeeded. Check if the new branch can also
           // consume the previously consumed input (shared options case).
           const previouslyConsumed = activeState[1].consumed;
-          const checkResultOrPromise = parser.parse({
+          const sharedInput = getSharedInput(context, previouslyConsumed);
+          const sharedContext = {
             ...withChildContext(context, i, parser.initialState, parser),
-            buffer: previouslyConsumed,
-          });
-          const checkResult = await checkResultOrPromise;
+            ...sharedInput,
+          };
+          const checkResult: ParserResult<unknown> =
+            sharedInput.buffer.length > 0
+              ? await parser.parse(sharedContext)
+              : { success: true, next: sharedContext, consumed: [] };
           // If the new branch can consume exactly the same input,
           // this is a shared option - allow branch switch.
           const canConsumeShared = checkResult.success &&
-            checkResult.consumed.length === previouslyConsumed.length &&
+            checkResult.consumed.length === sharedInput.buffer.length &&
             checkResult.consumed.every((c, idx) =>
-              c === previouslyConsumed[idx]
+              c === sharedInput.buffer[idx]
             );
           if (!canConsumeShared) {
             return {
@@ -3800,7 +3868,12 @@ export function or(
             ...context,
             buffer: result.next.buffer,
             optionsTerminated: result.next.optionsTerminated,
-            state: createExclusiveState(context.state, i, parser, result),
+            state: createExclusiveState(
+              context.state,
+              i,
+              parser,
+              continueExclusiveBranch(activeState, i, result),
+            ),
             ...(mergedExec != null
               ? {
                 exec: mergedExec,
@@ -3880,7 +3953,11 @@ export function or(
               context.state,
               provisionalConsuming.index,
               provisionalConsuming.parser,
-              provisionalConsuming.result,
+              continueExclusiveBranch(
+                activeState,
+                provisionalConsuming.index,
+                provisionalConsuming.result,
+              ),
             ),
             ...(mergedExec != null
               ? {
@@ -3899,18 +3976,23 @@ export function or(
       // narrowing here, so re-test inline.
       if (activeState != null && activeState[1].success) {
         const previouslyConsumed = activeState[1].consumed;
-        const checkResult = await provisionalConsuming.parser.parse({
+        const sharedInput = getSharedInput(context, previouslyConsumed);
+        const sharedContext = {
           ...withChildContext(
             context,
             provisionalConsuming.index,
             provisionalConsuming.parser.initialState,
             provisionalConsuming.parser,
           ),
-          buffer: previouslyConsumed,
-        });
+          ...sharedInput,
+        };
+        const checkResult: ParserResult<unknown> =
+          sharedInput.buffer.length > 0
+            ? await provisionalConsuming.parser.parse(sharedContext)
+            : { success: true, next: sharedContext, consumed: [] };
         const canConsumeShared = checkResult.success &&
-          checkResult.consumed.length === previouslyConsumed.length &&
-          checkResult.consumed.every((c, idx) => c === previouslyConsumed[idx]);
+          checkResult.consumed.length === sharedInput.buffer.length &&
+          checkResult.consumed.every((c, idx) => c === sharedInput.buffer[idx]);
         if (canConsumeShared && checkResult.success) {
           const replayExec = mergeChildExec(
             context.exec,
-- 
2.43.0


From 4496abd0655db0143355e1a4b073a9196aac3db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:01 +0000
Subject: [PATCH 05/34] fix: accept a trailing -- when only positional
 arguments are left

A grammar without options rejected 'a --' with 'Expected an argument, but got
end of input', while the same grammar with any option accepts it.
---
 packages/core/src/primitives.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 3369e9f..7dcca03 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -2505,6 +2505,14 @@ export function argument<M extends Mode, T>(
         if (context.buffer[i] === "--") {
           optionsTerminated = true;
           i++;
+          if (context.buffer.length === i) {
+            // Nothing follows the terminator: consume it alone, as options do.
+            return {
+              success: true,
+              next: { ...context, buffer: [], optionsTerminated },
+              consumed: context.buffer.slice(0, i),
+            };
+          }
         } else if (
           context.buffer[i].match(optionPattern) ||
           isJoinedOption(context.buffer[i], context.usage)
-- 
2.43.0


From eab36ea74a3eae95e5f493fbb21c40c7667e7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 06/34] fix: let passThrough() rather than argument() take
 unrecognized --name=value options

The options terminator example in docs/concepts/primitives.md gave
files: ["--foo=bar", ...], extra: [].
---
 packages/core/src/primitives.ts | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 7dcca03..1fd728e 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -84,7 +84,27 @@ function isJoinedOption(token: string, usage: Usage): boolean {
   if (!token.startsWith("-") || !token.includes("=")) return false;
   return [...extractOptionNames(usage, true)].some((name) =>
     token.startsWith(`${name}=`)
-  );
+  ) || (/^--[a-z0-9-]+=/i.test(token) && hasPassThrough(usage));
+}
+
+/**
+ * Returns whether the given usage captures unrecognized options.
+ */
+function hasPassThrough(usage: Usage): boolean {
+  return usage.some((term) => {
+    switch (term.type) {
+      case "passthrough":
+        return true;
+      case "exclusive":
+        return term.terms.some(hasPassThrough);
+      case "optional":
+      case "multiple":
+      case "sequence":
+        return hasPassThrough(term.terms);
+      default:
+        return false;
+    }
+  });
 }
 
 function isTerminalValueState<T>(
-- 
2.43.0


From 14abf6f092dea9dbff9358c785bc5992e40b0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:44 +0000
Subject: [PATCH 07/34] fix: do not let passThrough() capture the options
 terminator in nextToken mode

---
 packages/core/src/primitives.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 1fd728e..f5a7371 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -3806,8 +3806,9 @@ export function passThrough(
       }
 
       if (format === "nextToken") {
-        // Must start with an option-like token
-        if (!optionPattern.test(token)) {
+        // Must start with an option-like token; the options terminator itself
+        // is not an option
+        if (token === "--" || !optionPattern.test(token)) {
           return {
             success: false,
             consumed: 0,
-- 
2.43.0


From b7aa362a57cb24cc61de8699c998f2f196f76035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:23 +0000
Subject: [PATCH 08/34] fix: reject fileSize() units named like
 Object.prototype members instead of throwing

---
 packages/core/src/valueparser.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index ad4f78a..d248ef1 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -3211,9 +3211,10 @@ export function fileSize(
           if (options.defaultUnit == null) return invalidFormatError(input);
           mBig = bigintMultiplierMap[options.defaultUnit.toLowerCase()];
         } else {
-          const m = bigintMultiplierMap[unitStr];
-          if (m == null) return invalidFormatError(input);
-          mBig = m;
+          if (!Object.hasOwn(bigintMultiplierMap, unitStr)) {
+            return invalidFormatError(input);
+          }
+          mBig = bigintMultiplierMap[unitStr];
         }
         const bytes = parseExactBytesRaw(numStr, mBig);
         if (bytes == null) return invalidFormatError(input);
@@ -3262,9 +3263,10 @@ export function fileSize(
         if (options.defaultUnit == null) return invalidFormatError(input);
         multiplier = multiplierMap[options.defaultUnit.toLowerCase()];
       } else {
-        const m = multiplierMap[unitStr];
-        if (m == null) return invalidFormatError(input);
-        multiplier = m;
+        if (!Object.hasOwn(multiplierMap, unitStr)) {
+          return invalidFormatError(input);
+        }
+        multiplier = multiplierMap[unitStr];
       }
       const bytes = parseExactBytes(numStr, multiplier);
       if (bytes == null) return invalidFormatError(input);
-- 
2.43.0


From d6ec140a194a164e9501aa20bdbe6f31cae94cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:41 +0000
Subject: [PATCH 09/34] fix: format fileSize() values exactly, so that they
 parse back

5640758533281546 was formatted as 5.01PiB, which fileSize() rejects.
---
 packages/core/src/valueparser.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index d248ef1..38beae9 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -3193,9 +3193,6 @@ export function fileSize(
     const bigintFormatUnits = siAsBinary
       ? BIGINT_FORMAT_UNITS_SI_AS_BINARY
       : BIGINT_FORMAT_UNITS_DEFAULT;
-    const numberFormatUnits = siAsBinary
-      ? FORMAT_UNITS_SI_AS_BINARY
-      : FORMAT_UNITS_DEFAULT;
 
     return {
       mode: "sync",
@@ -3231,10 +3228,6 @@ export function fileSize(
         return { success: true, value: bytes };
       },
       format(value: bigint): string {
-        const maxSafe = BigInt(Number.MAX_SAFE_INTEGER);
-        if (value >= -maxSafe && value <= maxSafe) {
-          return formatWithUnits(Number(value), numberFormatUnits);
-        }
         return formatBigIntBytes(value, bigintFormatUnits);
       },
     };
@@ -3248,6 +3241,9 @@ export function fileSize(
   const formatUnits = siAsBinary
     ? FORMAT_UNITS_SI_AS_BINARY
     : FORMAT_UNITS_DEFAULT;
+  const bigintFormatUnits = siAsBinary
+    ? BIGINT_FORMAT_UNITS_SI_AS_BINARY
+    : BIGINT_FORMAT_UNITS_DEFAULT;
 
   return {
     mode: "sync",
@@ -3283,7 +3279,10 @@ export function fileSize(
       return { success: true, value: bytes };
     },
     format(value: number): string {
-      return formatWithUnits(value, formatUnits);
+      // Floating-point arithmetic would format some large sizes inexactly.
+      return Number.isSafeInteger(value)
+        ? formatBigIntBytes(BigInt(value), bigintFormatUnits)
+        : formatWithUnits(value, formatUnits);
     },
   };
 }
-- 
2.43.0


From bdf28329f6cb98d734cd8cb74e2d3d0bad3906ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:25 +0000
Subject: [PATCH 10/34] fix: email() compared the allowed domains with text of
 a quoted local part containing @

---
 packages/core/src/valueparser.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/valueparser.ts b/packages/core/src/valueparser.ts
index 38beae9..8886e70 100644
--- a/packages/core/src/valueparser.ts
+++ b/packages/core/src/valueparser.ts
@@ -5940,7 +5940,7 @@ export function email(
 
           // Check domain restriction
           if (allowedDomains != null) {
-            const atIndex = validated.indexOf("@");
+            const atIndex = validated.lastIndexOf("@");
             const domain = validated.substring(atIndex + 1).toLowerCase();
             const isAllowed = allowedDomains.some((allowed) =>
               domain === allowed.toLowerCase()
@@ -5982,7 +5982,7 @@ export function email(
 
         // Check domain restriction
         if (allowedDomains != null) {
-          const atIndex = validated.indexOf("@");
+          const atIndex = validated.lastIndexOf("@");
           const domain = validated.substring(atIndex + 1).toLowerCase();
           const isAllowed = allowedDomains.some((allowed) =>
             domain === allowed.toLowerCase()
-- 
2.43.0


From 8151e81e97636b9c675c0068a5b096c9e387f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 11/34] fix: complete option values containing '=' and use
 '/option:' for joined slash options

---
 packages/core/src/primitives.ts | 162 +++++++++++++++++---------------
 1 file changed, 87 insertions(+), 75 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index f5a7371..986c809 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -533,6 +533,24 @@ function* getSuggestionsWithDependency<T>(
   yield* valueParser.suggest(prefix);
 }
 
+/**
+ * Splits a completion prefix of the joined form (`--option=value` or
+ * `/option:value`) into the option name with its separator and the value part.
+ * @internal
+ */
+function splitJoinedOptionPrefix(
+  optionNames: readonly string[],
+  prefix: string,
+): { readonly joined: string; readonly value: string } | undefined {
+  for (const name of optionNames) {
+    const joined = name.startsWith("/") ? `${name}:` : `${name}=`;
+    if (prefix.startsWith(joined)) {
+      return { joined, value: prefix.slice(joined.length) };
+    }
+  }
+  return undefined;
+}
+
 /**
  * Internal sync helper for option suggest functionality.
  * @internal
@@ -548,48 +566,45 @@ function* suggestOptionSync<T>(
 ): Generator<Suggestion> {
   if (hidden) return;
 
-  // Check for --option=value format
-  const equalsIndex = prefix.indexOf("=");
-  if (equalsIndex >= 0) {
-    // Handle --option=value completion
-    const optionPart = prefix.slice(0, equalsIndex);
-    const valuePart = prefix.slice(equalsIndex + 1);
-
-    // Check if this option matches any of our option names
-    if ((optionNames as readonly string[]).includes(optionPart)) {
-      if (valueParser && valueParser.suggest) {
-        const valueSuggestions = getSuggestionsWithDependency(
-          valueParser,
-          valuePart,
-          context.dependencyRegistry,
-          context.exec,
-        );
-        // Prepend the option= part to each suggestion
-        for (const suggestion of valueSuggestions) {
-          if (suggestion.kind === "literal") {
-            yield {
-              kind: "literal",
-              text: `${optionPart}=${suggestion.text}`,
-              description: suggestion.description,
-            };
-          } else {
-            // For file suggestions, we can't easily combine with option= format
-            // so we fall back to literal suggestions
-            yield {
-              kind: "literal",
-              text: `${optionPart}=${suggestion.pattern || ""}`,
-              description: suggestion.description,
-            };
-          }
+  const expectingValue = context.buffer.length > 0 &&
+    (optionNames as readonly string[]).includes(
+      context.buffer[context.buffer.length - 1],
+    );
+
+  // Check for --option=value and /option:value formats, unless the prefix is
+  // the separate value of the preceding option, which may contain any character
+  const joinedPrefix = expectingValue
+    ? undefined
+    : splitJoinedOptionPrefix(optionNames, prefix);
+  if (joinedPrefix != null) {
+    const { joined, value: valuePart } = joinedPrefix;
+    if (valueParser && valueParser.suggest) {
+      const valueSuggestions = getSuggestionsWithDependency(
+        valueParser,
+        valuePart,
+        context.dependencyRegistry,
+        context.exec,
+      );
+      // Prepend the option= part to each suggestion
+      for (const suggestion of valueSuggestions) {
+        if (suggestion.kind === "literal") {
+          yield {
+            kind: "literal",
+            text: `${joined}${suggestion.text}`,
+            description: suggestion.description,
+          };
+        } else {
+          // For file suggestions, we can't easily combine with option= format
+          // so we fall back to literal suggestions
+          yield {
+            kind: "literal",
+            text: `${joined}${suggestion.pattern || ""}`,
+            description: suggestion.description,
+          };
         }
       }
     }
   } else {
-    const expectingValue = context.buffer.length > 0 &&
-      (optionNames as readonly string[]).includes(
-        context.buffer[context.buffer.length - 1],
-      );
-
     // If the prefix looks like an option prefix, suggest matching option names
     if (
       !expectingValue &&
@@ -729,47 +744,44 @@ async function* suggestOptionAsync<T>(
 ): AsyncGenerator<Suggestion> {
   if (hidden) return;
 
-  // Check for --option=value format
-  const equalsIndex = prefix.indexOf("=");
-  if (equalsIndex >= 0) {
-    // Handle --option=value completion
-    const optionPart = prefix.slice(0, equalsIndex);
-    const valuePart = prefix.slice(equalsIndex + 1);
-
-    // Check if this option matches any of our option names
-    if ((optionNames as readonly string[]).includes(optionPart)) {
-      if (valueParser && valueParser.suggest) {
-        const valueSuggestions = getSuggestionsWithDependencyAsync(
-          valueParser,
-          valuePart,
-          context.dependencyRegistry,
-          context.exec,
-        );
-        // Prepend the option= part to each suggestion - handle both sync and async
-        for await (const suggestion of valueSuggestions) {
-          if (suggestion.kind === "literal") {
-            yield {
-              kind: "literal",
-              text: `${optionPart}=${suggestion.text}`,
-              description: suggestion.description,
-            };
-          } else {
-            // For file suggestions, we can't easily combine with option= format
-            yield {
-              kind: "literal",
-              text: `${optionPart}=${suggestion.pattern || ""}`,
-              description: suggestion.description,
-            };
-          }
+  const expectingValue = context.buffer.length > 0 &&
+    (optionNames as readonly string[]).includes(
+      context.buffer[context.buffer.length - 1],
+    );
+
+  // Check for --option=value and /option:value formats, unless the prefix is
+  // the separate value of the preceding option, which may contain any character
+  const joinedPrefix = expectingValue
+    ? undefined
+    : splitJoinedOptionPrefix(optionNames, prefix);
+  if (joinedPrefix != null) {
+    const { joined, value: valuePart } = joinedPrefix;
+    if (valueParser && valueParser.suggest) {
+      const valueSuggestions = getSuggestionsWithDependencyAsync(
+        valueParser,
+        valuePart,
+        context.dependencyRegistry,
+        context.exec,
+      );
+      // Prepend the option= part to each suggestion - handle both sync and async
+      for await (const suggestion of valueSuggestions) {
+        if (suggestion.kind === "literal") {
+          yield {
+            kind: "literal",
+            text: `${joined}${suggestion.text}`,
+            description: suggestion.description,
+          };
+        } else {
+          // For file suggestions, we can't easily combine with option= format
+          yield {
+            kind: "literal",
+            text: `${joined}${suggestion.pattern || ""}`,
+            description: suggestion.description,
+          };
         }
       }
     }
   } else {
-    const expectingValue = context.buffer.length > 0 &&
-      (optionNames as readonly string[]).includes(
-        context.buffer[context.buffer.length - 1],
-      );
-
     // If the prefix looks like an option prefix, suggest matching option names
     if (
       !expectingValue &&
-- 
2.43.0


From c5c13bec4569810eaca24e971445b3c4e775b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 12/34] fix: do not offer option names for completion after
 '--'

---
 packages/core/src/primitives.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/primitives.ts b/packages/core/src/primitives.ts
index 986c809..bebb3bf 100644
--- a/packages/core/src/primitives.ts
+++ b/packages/core/src/primitives.ts
@@ -564,7 +564,7 @@ function* suggestOptionSync<T>(
   >,
   prefix: string,
 ): Generator<Suggestion> {
-  if (hidden) return;
+  if (hidden || context.optionsTerminated) return;
 
   const expectingValue = context.buffer.length > 0 &&
     (optionNames as readonly string[]).includes(
@@ -742,7 +742,7 @@ async function* suggestOptionAsync<T>(
   >,
   prefix: string,
 ): AsyncGenerator<Suggestion> {
-  if (hidden) return;
+  if (hidden || context.optionsTerminated) return;
 
   const expectingValue = context.buffer.length > 0 &&
     (optionNames as readonly string[]).includes(
@@ -1894,8 +1894,8 @@ export function flag(
         error: message`${eOptionNames(optionNames)}: ${state.error}`,
       };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      if (isSuggestionHidden(options.hidden) || context.optionsTerminated) {
         return [];
       }
       const suggestions: Suggestion[] = [];
@@ -2342,8 +2342,8 @@ export function negatableFlag(
       }
       return { success: true, value: state.value };
     },
-    suggest(_context, prefix) {
-      if (isSuggestionHidden(options.hidden)) {
+    suggest(context, prefix) {
+      if (isSuggestionHidden(options.hidden) || context.optionsTerminated) {
         return [];
       }
       const suggestions: Suggestion[] = [];
-- 
2.43.0


From 66a07ce94945a4b46f8ade99f36f65b07402f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:58 +0000
Subject: [PATCH 13/34] fix: offer only the option's values while an option
 awaits its value in merge, tuple, concat, or and conditional

---
 packages/core/src/constructs.ts | 63 +++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 7f44ee1..ec6fd35 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -813,6 +813,27 @@ function isOptionRequiringValue(usage: Usage, token: string): boolean {
 }
 import type { DeferredMap, ValueParserResult } from "./valueparser.ts";
 
+/**
+ * Selects the child parsers that may offer suggestions.  When the last token
+ * of the buffer is an option awaiting its value, only the children that have
+ * that option may, so that their siblings do not offer positional arguments
+ * in place of the option's value.
+ * @param parsers The child parsers.
+ * @param buffer The input that is left before the word being completed.
+ * @returns A predicate over the child parsers.
+ */
+function createSuggestFilter(
+  parsers: readonly Parser<Mode, unknown, unknown>[],
+  buffer: readonly string[],
+): (parser: Parser<Mode, unknown, unknown>) => boolean {
+  if (buffer.length < 1) return () => true;
+  const lastToken = buffer[buffer.length - 1];
+  const owners = parsers.filter((parser) =>
+    isOptionRequiringValue(parser.usage, lastToken)
+  );
+  return owners.length < 1 ? () => true : (parser) => owners.includes(parser);
+}
+
 /**
  * Options for customizing error messages in the {@link or} combinator.
  * @since 0.5.0
@@ -1431,8 +1452,10 @@ function createExclusiveSuggest(
           (activeState[1].success && activeState[1].consumed.length === 0)
         ) {
           // No parser has been selected yet (or selection is provisional)
+          const canSuggest = createSuggestFilter(syncParsers, context.buffer);
           for (let i = 0; i < syncParsers.length; i++) {
             const parser = syncParsers[i];
+            if (!canSuggest(parser)) continue;
             const parserSuggestions = parser.suggest(
               withChildContext(context, i, parser.initialState, parser),
               prefix,
@@ -1468,8 +1491,10 @@ function createExclusiveSuggest(
           activeState == null ||
           (activeState[1].success && activeState[1].consumed.length === 0)
         ) {
+          const canSuggest = createSuggestFilter(parsers, context.buffer);
           for (let i = 0; i < parsers.length; i++) {
             const parser = parsers[i];
+            if (!canSuggest(parser)) continue;
             const parserSuggestions = parser.suggest(
               withChildContext(context, i, parser.initialState, parser),
               prefix,
@@ -7831,8 +7856,10 @@ function suggestTupleSync(
       : {}),
   };
 
+  const canSuggest = createSuggestFilter(parsers, advancedContext.buffer);
   for (let i = 0; i < parsers.length; i++) {
     const parser = parsers[i];
+    if (!canSuggest(parser)) continue;
     const parserState = stateArray && Array.isArray(stateArray)
       ? stateArray[i]
       : parser.initialState;
@@ -7903,8 +7930,10 @@ async function* suggestTupleAsync(
       : {}),
   };
 
+  const canSuggest = createSuggestFilter(parsers, advancedContext.buffer);
   for (let i = 0; i < parsers.length; i++) {
     const parser = parsers[i];
+    if (!canSuggest(parser)) continue;
     const parserState = stateArray && Array.isArray(stateArray)
       ? stateArray[i]
       : parser.initialState;
@@ -11188,8 +11217,10 @@ export function merge(
 
           const suggestions: Suggestion[] = [];
 
+          const canSuggest = createSuggestFilter(parsers, context.buffer);
           for (let i = 0; i < parsers.length; i++) {
             const parser = parsers[i];
+            if (!canSuggest(parser)) continue;
             const parserState = extractState(parser, i);
             const childContext = withChildContext(
               contextWithRegistry,
@@ -11289,8 +11320,10 @@ export function merge(
       return (function* () {
         const suggestions: Suggestion[] = [];
 
+        const canSuggest = createSuggestFilter(syncParsers, context.buffer);
         for (let i = 0; i < syncParsers.length; i++) {
           const parser = syncParsers[i];
+          if (!canSuggest(parser)) continue;
           const parserState = extractState(parser, i);
           const childContext = withChildContext(
             contextWithRegistry,
@@ -12699,8 +12732,13 @@ export function concat(
 
           const suggestions: Suggestion[] = [];
 
+          const canSuggest = createSuggestFilter(
+            parsers,
+            contextWithRegistry.buffer,
+          );
           for (let i = 0; i < parsers.length; i++) {
             const parser = parsers[i];
+            if (!canSuggest(parser)) continue;
             const parserState = stateArray && Array.isArray(stateArray)
               ? stateArray[i]
               : parser.initialState;
@@ -12738,8 +12776,13 @@ export function concat(
       return (function* () {
         const suggestions: Suggestion[] = [];
 
+        const canSuggest = createSuggestFilter(
+          syncParsers,
+          contextWithRegistry.buffer,
+        );
         for (let i = 0; i < syncParsers.length; i++) {
           const parser = syncParsers[i];
+          if (!canSuggest(parser)) continue;
           const parserState = stateArray && Array.isArray(stateArray)
             ? stateArray[i]
             : parser.initialState;
@@ -14956,6 +14999,16 @@ export function conditional(
         ),
         prefix,
       );
+      if (
+        context.buffer.length > 0 &&
+        isOptionRequiringValue(
+          discriminator.usage,
+          context.buffer[context.buffer.length - 1],
+        )
+      ) {
+        // The discriminator's option awaits its value; no branch can follow.
+        return;
+      }
 
       // Try resolving the discriminator to show branch suggestions
       // for zero-consuming discriminators (e.g., constant("key")).
@@ -15122,6 +15175,16 @@ export function conditional(
         ),
         prefix,
       );
+      if (
+        context.buffer.length > 0 &&
+        isOptionRequiringValue(
+          discriminator.usage,
+          context.buffer[context.buffer.length - 1],
+        )
+      ) {
+        // The discriminator's option awaits its value; no branch can follow.
+        return;
+      }
 
       // Try resolving the discriminator for branch suggestions
       // (see sync counterpart for rationale).  Only attempt completion
-- 
2.43.0


From 1fb5b8c6b8b905ba93f95870abee3b2d964359c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 14/34] fix: mapped and grouped source-bound fields read their
 source inside object()

---
 packages/core/src/annotation-state.ts | 21 +++++++++++++++++----
 packages/core/src/constructs.ts       |  5 +++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/annotation-state.ts b/packages/core/src/annotation-state.ts
index 6993ad8..5a12ed1 100644
--- a/packages/core/src/annotation-state.ts
+++ b/packages/core/src/annotation-state.ts
@@ -11,6 +11,7 @@ import {
   inheritParentAnnotationsKey,
   type Mode,
   type Parser,
+  unmatchedNonCliDependencySourceStateMarker,
 } from "./internal/parser.ts";
 
 /**
@@ -608,6 +609,20 @@ export function isAnnotationWrappedInitialState(state: unknown): boolean {
   return normalizeInjectedAnnotationState(state) === undefined;
 }
 
+/**
+ * Whether a child parser reads the annotations of its parent's state.
+ *
+ * Besides the parsers that opt in themselves, these are the wrappers around
+ * source-bound parsers, such as `map(bindEnv(...))`: they keep the marker of
+ * source-backed completion, and hand their state on to the bound parser.
+ */
+function inheritsParentAnnotations(
+  parser: Parser<Mode, unknown, unknown>,
+): boolean {
+  return Reflect.get(parser, inheritParentAnnotationsKey) === true ||
+    parser[unmatchedNonCliDependencySourceStateMarker] === true;
+}
+
 /**
  * Propagates parent annotations into a child parse state when the child parser
  * explicitly opts into parent annotation inheritance.
@@ -628,8 +643,7 @@ export function getWrappedChildParseState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
@@ -669,8 +683,7 @@ export function getWrappedChildState<TState>(
   parser: Parser<Mode, unknown, unknown>,
 ): TState {
   const annotations = getAnnotations(parentState);
-  const shouldInheritAnnotations =
-    Reflect.get(parser, inheritParentAnnotationsKey) === true;
+  const shouldInheritAnnotations = inheritsParentAnnotations(parser);
   if (childState == null) {
     if (annotations !== undefined && shouldInheritAnnotations) {
       return injectAnnotations(childState, annotations);
diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index ec6fd35..cd46ef7 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -12909,6 +12909,11 @@ export function group<M extends Mode, TValue, TState>(
         )[fieldParsersKey],
       }
       : {}),
+    // Forward the source-binding marker so that a grouped bindEnv() or
+    // bindConfig() field still reads its source through a parent parser.
+    ...(parser[unmatchedNonCliDependencySourceStateMarker] === true
+      ? { [unmatchedNonCliDependencySourceStateMarker]: true as const }
+      : {}),
     // Forward completion deferral hook from inner parser so that
     // prompt(group("label", bindConfig(...))) defers correctly.
     ...(typeof parser.shouldDeferCompletion === "function"
-- 
2.43.0


From 0e3f30b59c16dde6295b98e71771185dfbae90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 15/34] fix: a dependency source inside group() or nonEmpty()
 is seen by derived parsers

---
 packages/core/src/constructs.ts | 9 +++++++++
 packages/core/src/modifiers.ts  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index cd46ef7..2ca9b50 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13067,6 +13067,15 @@ export function group<M extends Mode, TValue, TState>(
       enumerable: false,
     });
   }
+  // Forward dependency metadata so that a grouped dependency source is seen
+  // by the derived parsers next to it.
+  if (parser.dependencyMetadata != null) {
+    Object.defineProperty(groupParser, "dependencyMetadata", {
+      value: parser.dependencyMetadata,
+      configurable: true,
+      enumerable: false,
+    });
+  }
   return fluent(groupParser);
 }
 
diff --git a/packages/core/src/modifiers.ts b/packages/core/src/modifiers.ts
index d4190ef..964a2b9 100644
--- a/packages/core/src/modifiers.ts
+++ b/packages/core/src/modifiers.ts
@@ -3430,6 +3430,15 @@ export function nonEmpty<M extends Mode, T, TState>(
       enumerable: false,
     });
   }
+  // Forward dependency metadata so that a dependency source inside is seen by
+  // the derived parsers next to it.
+  if (parser.dependencyMetadata != null) {
+    Object.defineProperty(nonEmptyParser, "dependencyMetadata", {
+      value: parser.dependencyMetadata,
+      configurable: true,
+      enumerable: false,
+    });
+  }
   return fluent(nonEmptyParser);
 }
 
-- 
2.43.0


From a6baec698a4a4555839ce0f02df5716848fc0675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:45 +0000
Subject: [PATCH 16/34] fix: load the configuration when nothing but it can
 provide a required value

---
 packages/config/src/index.ts | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/packages/config/src/index.ts b/packages/config/src/index.ts
index 7912c04..71e54b7 100644
--- a/packages/config/src/index.ts
+++ b/packages/config/src/index.ts
@@ -28,6 +28,7 @@ import { getAnnotations } from "@optique/core/annotations";
 import {
   defineTraits,
   delegateSuggestNodes,
+  extractPhase2SeedKey,
   inheritAnnotations,
   injectAnnotations,
   mapModeValue,
@@ -886,6 +887,36 @@ export function bindConfig<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // Before the configuration is loaded, a field that only the configuration
+  // can provide has no value yet.  It must not keep phase two from running:
+  // otherwise the configuration that provides it would never be loaded.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      const annotations = getAnnotations(state);
+      if (
+        annotations?.[options.context.id] === phase1ConfigAnnotationMarker &&
+        !(isConfigBindState(state) && state.hasCliValue)
+      ) {
+        return wrapForMode(parser.mode, {
+          value: undefined as TValue,
+          deferred: true as const,
+        });
+      }
+      const extractInnerPhase2Seed = (parser as typeof parser & {
+        readonly [extractPhase2SeedKey]?: (
+          state: TState,
+          exec?: ExecutionContext,
+        ) => ModeValue<M, unknown>;
+      })[extractPhase2SeedKey];
+      return extractInnerPhase2Seed == null
+        ? wrapForMode(parser.mode, null)
+        : wrapForMode(
+          parser.mode,
+          extractInnerPhase2Seed(getInnerState(state), exec),
+        );
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From 11485a99b41185efa17501a79e4a1b081a28e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 17/34] fix: source-bound elements of a tuple or concat inside
 object() read their source

---
 packages/core/src/constructs.ts | 48 ++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 2ca9b50..7330032 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -552,6 +552,24 @@ function prepareStateForCompletion(
   return fieldState;
 }
 
+/**
+ * Prepares an element of an array state for completion.  Elements that were
+ * never parsed, because their tuple was not, still read the annotations of
+ * the array state.
+ * @internal
+ */
+function prepareElementForCompletion(
+  stateArray: readonly unknown[],
+  elementState: unknown,
+  parser: Parser<Mode, unknown, unknown>,
+): unknown {
+  return getAnnotatedChildState(
+    stateArray,
+    prepareStateForCompletion(elementState, parser),
+    parser,
+  );
+}
+
 /**
  * Returns the field state with parent annotations inherited, respecting
  * the parser's annotation-inheritance contract. This is the same logic as
@@ -8757,10 +8775,7 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
-                resolvedArray[i],
-                elementParser,
-              );
+              const elementState = prepareElementForCompletion(stateArray, resolvedArray[i], elementParser);
               valueResult = unwrapCompleteResult(
                 elementParser.complete(
                   elementState,
@@ -8853,10 +8868,7 @@ export function tuple<
             if (preCompletedResult !== undefined) {
               valueResult = unwrapCompleteResult(preCompletedResult);
             } else {
-              const elementState = prepareStateForCompletion(
-                resolvedArray[i],
-                elementParser,
-              );
+              const elementState = prepareElementForCompletion(stateArray, resolvedArray[i], elementParser);
               valueResult = unwrapCompleteResult(
                 await elementParser.complete(
                   elementState,
@@ -8946,13 +8958,13 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], elementParser),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], elementParser),
                 childExec,
               );
             if (seed == null) continue;
@@ -9029,13 +9041,13 @@ export function tuple<
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], elementParser),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 elementParser,
-                prepareStateForCompletion(resolvedArray[i], elementParser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], elementParser),
                 childExec,
               );
             if (seed == null) continue;
@@ -12373,7 +12385,7 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareElementForCompletion(stateArray, resolvedArray[i], parser),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12483,7 +12495,7 @@ export function concat(
         ? unwrapCompleteResult(preCompletedResult)
         : unwrapCompleteResult(
           await parser.complete(
-            prepareStateForCompletion(resolvedArray[i], parser),
+            prepareElementForCompletion(stateArray, resolvedArray[i], parser),
             withChildExecPath(phase3Exec, i),
           ),
         );
@@ -12616,13 +12628,13 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? reusePreCompletedPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], parser),
                 preCompletedResult,
                 childExec,
               )
               : completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], parser),
                 childExec,
               );
             if (seed == null) continue;
@@ -12688,13 +12700,13 @@ export function concat(
             const seed = preCompletedResult !== undefined
               ? await reusePreCompletedPhase2SeedAsync(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], parser),
                 preCompletedResult,
                 childExec,
               )
               : await completeOrExtractPhase2Seed(
                 parser,
-                prepareStateForCompletion(resolvedArray[i], parser),
+                prepareElementForCompletion(stateArray, resolvedArray[i], parser),
                 childExec,
               );
             if (seed == null) continue;
-- 
2.43.0


From 168585bd00b82284ec0ce56523bade0e4b733acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:52 +0000
Subject: [PATCH 18/34] fix: bindEnv() hands on the inner parser's phase-two
 value

---
 packages/env/src/index.ts | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index ac2280b..c60bacb 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -6,6 +6,7 @@ import {
   defineTraits,
   delegateSuggestNodes,
   dispatchByMode,
+  extractPhase2SeedKey,
   getTraits,
   inheritAnnotations,
   injectAnnotations,
@@ -883,6 +884,26 @@ export function bindEnv<
       return parser.getDocFragments(state, defaultValue);
     },
   };
+  // Without a value of its own, bindEnv() hands on whatever the inner parser
+  // (such as a bindConfig() whose configuration is not loaded yet) has to
+  // offer before phase two.
+  Object.defineProperty(boundParser, extractPhase2SeedKey, {
+    value(state: TState, exec?: ExecutionContext) {
+      const extractInnerPhase2Seed = (parser as typeof parser & {
+        readonly [extractPhase2SeedKey]?: (
+          state: TState,
+          exec?: ExecutionContext,
+        ) => ModeValue<M, unknown>;
+      })[extractPhase2SeedKey];
+      return extractInnerPhase2Seed == null
+        ? wrapForMode(parser.mode, null)
+        : wrapForMode(
+          parser.mode,
+          extractInnerPhase2Seed(getInnerState(state), exec),
+        );
+    },
+    configurable: true,
+  });
   defineTraits(boundParser, {
     inheritsAnnotations: true,
     completesFromSource: true,
-- 
2.43.0


From 2466097d1abf2abd6e65fb8d730dc5224f4a0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:19 +0000
Subject: [PATCH 19/34] fix: seq() keeps positional values after -- for its
 last parser

seq(option("-v"), multiple(argument(string()))) rejected 'a -- b' because the
terminator moved the cursor past the last parser, and a second -- was taken as
a terminator again.
---
 packages/core/src/constructs.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 7330032..fb95bf4 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -7466,15 +7466,19 @@ function shouldAdvanceSeqBeforeParse(
   index: number,
   parsers: readonly Parser<Mode, unknown, unknown>[],
 ): boolean {
+  // The last parser has nothing to give way to, and only the first `--` is a
+  // terminator.
+  if (index + 1 >= parsers.length) return false;
   const token = currentContext.buffer[0];
-  if (token !== "--") {
+  const isTerminator = token === "--" && !currentContext.optionsTerminated;
+  if (!isTerminator) {
     const laterLeadingCandidates = leadingCandidatesAfter(parsers, index + 1);
     if (!tokenMatchesLeadingName(token, laterLeadingCandidates)) return false;
   }
   if (!parserCanSkipAt(parser, parserState, currentContext.exec, index)) {
     return false;
   }
-  if (token === "--") return true;
+  if (isTerminator) return true;
   if (currentContext.state.states[index] === initialParserState) {
     const currentLeadingCandidates = sequenceLeadingCandidates([parser]);
     return !tokenMatchesLeadingName(token, currentLeadingCandidates);
-- 
2.43.0


From f68401b77dce5cb90e554facae7ecac238a5296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:19 +0000
Subject: [PATCH 20/34] fix: conditional() tries its default branch after --

Given '-- x' (or '--') conditional() with a default branch reported the
discriminator as missing, because consuming the terminator alone was taken as
consuming the discriminator.
---
 packages/core/src/constructs.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index fb95bf4..5e2ee47 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13188,6 +13188,17 @@ type ConditionalResultWithDefault<
   | ConditionalResultWithoutDefault<TDiscriminator, TBranches>
   | readonly [undefined, InferValue<TDefault>];
 
+/**
+ * Returns whether a parser consumed nothing but the options terminator.
+ */
+function consumedOnlyTerminator(
+  context: ParserContext<unknown>,
+  result: Extract<ParserResult<unknown>, { readonly success: true }>,
+): boolean {
+  return !context.optionsTerminated && result.next.optionsTerminated &&
+    result.consumed.length === 1 && result.consumed[0] === "--";
+}
+
 /**
  * Creates a conditional parser without a default branch.
  * The discriminator option is required; parsing fails if not provided.
@@ -13612,7 +13623,10 @@ export function conditional(
       // Discriminator consumed tokens but completion failed (e.g.,
       // invalid choice value).  Propagate the error instead of
       // masking it behind the default branch or a generic no-match.
-      if (discriminatorResult.consumed.length > 0) {
+      if (
+        discriminatorResult.consumed.length > 0 &&
+        !consumedOnlyTerminator(context, discriminatorResult)
+      ) {
         return {
           success: false,
           consumed: discriminatorResult.consumed.length,
@@ -14146,7 +14160,10 @@ export function conditional(
       }
       // Discriminator consumed tokens but completion failed
       // (see sync counterpart for rationale).
-      if (discriminatorResult.consumed.length > 0) {
+      if (
+        discriminatorResult.consumed.length > 0 &&
+        !consumedOnlyTerminator(context, discriminatorResult)
+      ) {
         return {
           success: false,
           consumed: discriminatorResult.consumed.length,
-- 
2.43.0


From 185077283b633e82aece4fd2b9e3d24bf4280769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:38 +0000
Subject: [PATCH 21/34] fix: escape backslashes in option names in man pages

---
 packages/man/src/man.ts  | 6 +++---
 packages/man/src/roff.ts | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/man/src/man.ts b/packages/man/src/man.ts
index 8f57812..06852a4 100644
--- a/packages/man/src/man.ts
+++ b/packages/man/src/man.ts
@@ -222,7 +222,7 @@ function formatUsageTermAsRoffInternal(
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(" | ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -349,7 +349,7 @@ function formatDocEntryTerm(term: UsageTerm): string {
   switch (term.type) {
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
@@ -413,7 +413,7 @@ function formatDocUsageTermAsRoff(term: UsageTerm): string {
 
     case "option": {
       const names = term.names
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeRoff(name))}\\fR`)
         .join(", ");
       const metavarPart = term.metavar
         ? ` \\fI${escapeRoff(term.metavar)}\\fR`
diff --git a/packages/man/src/roff.ts b/packages/man/src/roff.ts
index 17b2181..fe1a476 100644
--- a/packages/man/src/roff.ts
+++ b/packages/man/src/roff.ts
@@ -145,12 +145,12 @@ function formatTermAsRoff(
 
     case "optionName":
       // Bold with escaped hyphens
-      return `\\fB${escapeHyphens(term.optionName)}\\fR`;
+      return `\\fB${escapeHyphens(escapeBackslashes(term.optionName))}\\fR`;
 
     case "optionNames":
       // Comma-separated bold option names
       return term.optionNames
-        .map((name) => `\\fB${escapeHyphens(name)}\\fR`)
+        .map((name) => `\\fB${escapeHyphens(escapeBackslashes(name))}\\fR`)
         .join(", ");
 
     case "metavar":
-- 
2.43.0


From 069fb1fc77eef5ecb94b61ed3eedf165e53de20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:08 +0000
Subject: [PATCH 22/34] fix: do not leave a separator alone on a wrapped line

A blank between two values, or a whitespace-only text, that no longer fits
on the line was put alone on the next one, so a wrapped message had lines
consisting of a blank only.
---
 packages/core/src/message.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 5f5b12d..2f6ce26 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -592,7 +592,9 @@ export function formatMessage(
   const useQuotes = options.quotes ?? true;
   const resetSequence = `\x1b[0m${resetSuffix}`;
 
-  function* stream(): Generator<{ text: string; width: number }> {
+  function* stream(): Generator<
+    { text: string; width: number; separator?: boolean }
+  > {
     const wordPattern = /\s*\S+\s*/g;
     let prevWasLineBreak = false;
     for (const term of msg) {
@@ -649,7 +651,7 @@ export function formatMessage(
 
           // Handle whitespace-only text specially to preserve spaces
           if (normalizedText.trim() === "" && normalizedText.length > 0) {
-            yield { text: " ", width: 1 };
+            yield { text: " ", width: 1, separator: true };
           } else {
             wordPattern.lastIndex = 0;
             while (true) {
@@ -700,7 +702,7 @@ export function formatMessage(
         };
       } else if (term.type === "values") {
         for (let i = 0; i < term.values.length; i++) {
-          if (i > 0) yield { text: " ", width: 1 };
+          if (i > 0) yield { text: " ", width: 1, separator: true };
           const value = useQuotes
             ? JSON.stringify(term.values[i])
             : term.values[i];
@@ -763,7 +765,7 @@ export function formatMessage(
 
   let output = "";
   let totalWidth = options.startWidth ?? 0;
-  for (const { text, width } of stream()) {
+  for (const { text, width, separator } of stream()) {
     // Handle hard line breaks (marked with width -1)
     if (width === -1) {
       output += text; // Add the newline
@@ -778,6 +780,9 @@ export function formatMessage(
     ) {
       output += "\n";
       totalWidth = 0;
+      // The break takes the place of a separator that no longer fits;
+      // otherwise the separator could end up alone on a line.
+      if (separator) continue;
     }
     output += text;
     totalWidth += width;
-- 
2.43.0


From 307e6d96ee0ebfe01787c7095dd69076eafb58ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:08 +0000
Subject: [PATCH 23/34] fix: keep a paragraph break in a text that follows a
 line break

formatMessage() wrote a single newline for the first paragraph break of any
text right after lineBreak(), even when the text had words before it.
---
 packages/core/src/message.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/message.ts b/packages/core/src/message.ts
index 2f6ce26..01f2256 100644
--- a/packages/core/src/message.ts
+++ b/packages/core/src/message.ts
@@ -627,10 +627,11 @@ export function formatMessage(
           ) {
             if (paragraphIndex > 0) {
               // Yield paragraph break with -1 as special marker.
-              // When preceded by lineBreak() (isAfterLineBreak && first break),
-              // that term already emitted one \n, so emit only one more to total
-              // two (\n\n).  Otherwise emit \n\n directly.
-              const breakText = isAfterLineBreak && paragraphIndex === 1
+              // When lineBreak() directly precedes this break (nothing has been
+              // written since), that term already emitted one \n, so emit only
+              // one more to total two (\n\n).  Otherwise emit \n\n directly.
+              const breakText = isAfterLineBreak && paragraphIndex === 1 &&
+                  paragraphs[0].trim() === ""
                 ? "\n"
                 : "\n\n";
               yield { text: breakText, width: -1 };
-- 
2.43.0


From 89f1b2ab534abd223cdb35ae78ad85067a5a1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 24/34] fix: reject inherited property names as completion
 shells

---
 packages/core/src/facade.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index 5d1cb8f..b17bb52 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -1625,7 +1625,9 @@ function handleCompletion<M extends Mode, THelp, TError>(
     );
   }
 
-  const shell = availableShells[shellName];
+  const shell = Object.hasOwn(availableShells, shellName)
+    ? availableShells[shellName]
+    : undefined;
 
   if (!shell) {
     const available: MessageTerm[] = [];
-- 
2.43.0


From a0582d55a9ef30a2c63fdf54816f1859240ffe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 25/34] fix: keep file completion patterns with line breaks on
 one line

---
 packages/core/src/completion.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 59ae1af..4301161 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -47,7 +47,8 @@ function validateProgramName(programName: string): void {
  * @internal
  */
 function encodePattern(pattern: string): string {
-  return pattern.replace(/%/g, "%25").replace(/:/g, "%3A");
+  return sanitizeForTransport(pattern)
+    .replace(/%/g, "%25").replace(/:/g, "%3A");
 }
 
 function encodeExtensions(
-- 
2.43.0


From 65caaf03eac820590992a9281638f2228462a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 26/34] fix: do not offer blank words in Bash completion

---
 packages/core/src/completion.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 4301161..7a95cd9 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -114,6 +114,8 @@ function _${programName} () {
   local current="\${COMP_WORDS[COMP_CWORD]}"
   local prev=("\${COMP_WORDS[@]:1:COMP_CWORD-1}")
   while IFS= read -r line; do
+    # Separators between records may be printed as blank lines
+    [[ -z "$line" ]] && continue
     if [[ "$line" == __FILE__:* ]]; then
       # Parse file completion directive: __FILE__:type:extensions:pattern:hidden
       IFS=':' read -r _ type extensions pattern hidden <<< "$line"
-- 
2.43.0


From 8078f9cb212966bc34a9fcaae4fd3ef98259b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 27/34] fix: keep colons and backslashes of zsh completions

---
 packages/core/src/completion.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 7a95cd9..6a0ae28 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -488,11 +488,15 @@ function _${programName.replace(/[^a-zA-Z0-9]/g, "_")} () {
     # Prepare completion with descriptions for _describe
     local -a matches
     local -i i
+    local escaped
     for (( i=1; i <= \${#completions[@]}; i++ )); do
+      # _describe takes an unescaped colon as the end of the completion
+      escaped="\${completions[i]//\\\\/\\\\\\\\}"
+      escaped="\${escaped//:/\\\\:}"
       if [[ -n "\${descriptions[i]}" ]]; then
-        matches+=("\${completions[i]}:\${descriptions[i]}")
+        matches+=("\${escaped}:\${descriptions[i]}")
       else
-        matches+=("\${completions[i]}")
+        matches+=("\${escaped}")
       fi
     done
     _describe 'commands' matches
-- 
2.43.0


From 953c83c0bd8e6461b3cb78a6fa05704665fb48e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:14 +0000
Subject: [PATCH 28/34] fix: escape backslashes in fish completion script
 arguments

---
 packages/core/src/completion.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/core/src/completion.ts b/packages/core/src/completion.ts
index 6a0ae28..8edfe67 100644
--- a/packages/core/src/completion.ts
+++ b/packages/core/src/completion.ts
@@ -541,7 +541,7 @@ export const fish: ShellCompletion = {
   name: "fish",
   generateScript(programName: string, args: readonly string[] = []): string {
     validateProgramName(programName);
-    const escapedArgs = args.map((arg) => `'${arg.replace(/'/g, "\\'")}'`)
+    const escapedArgs = args.map((arg) => `'${arg.replace(/['\\]/g, "\\$&")}'`)
       .join(" ");
     const functionName = `__${
       programName.replace(/[^a-zA-Z0-9]/g, "_")
-- 
2.43.0


From f028c260dc22ee8f4455324bbef0909e67602dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:35 +0000
Subject: [PATCH 29/34] fix: do not take inherited property names as
 conditional() branches

---
 packages/core/src/constructs.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/core/src/constructs.ts b/packages/core/src/constructs.ts
index 5e2ee47..7a4b1c7 100644
--- a/packages/core/src/constructs.ts
+++ b/packages/core/src/constructs.ts
@@ -13335,6 +13335,9 @@ export function conditional(
   ConditionalState<string>
 > {
   const branchParsers = Object.entries(branches);
+  // Branches are looked up by discriminator values, which may be arbitrary
+  // strings, so inherited property names must not be found among them.
+  branches = Object.assign(Object.create(null), branches);
   const allBranchParsers = defaultBranch
     ? [...branchParsers.map(([_, p]) => p), defaultBranch]
     : branchParsers.map(([_, p]) => p);
-- 
2.43.0


From 65c459503c7abf05635dcc0e3b89a90a7c0afb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:52 +0000
Subject: [PATCH 30/34] fix: do not read inherited properties of process.env as
 variables

---
 packages/env/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/env/src/index.ts b/packages/env/src/index.ts
index c60bacb..fa2685f 100644
--- a/packages/env/src/index.ts
+++ b/packages/env/src/index.ts
@@ -150,7 +150,8 @@ function defaultEnvSource(key: string): string | undefined {
   const processGlobal = (globalThis as {
     readonly process?: { readonly env?: Record<string, string | undefined> };
   }).process;
-  return processGlobal?.env?.[key];
+  const env = processGlobal?.env;
+  return env != null && Object.hasOwn(env, key) ? env[key] : undefined;
 }
 
 function isErrnoException(error: unknown): error is { readonly code: string } {
-- 
2.43.0


From b01da3f0efa3f9d52b153f8ed10082006a79eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:36 +0000
Subject: [PATCH 31/34] fix: do not offer help options where a conditional()
 discriminator awaits its value

---
 packages/core/src/facade.ts | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/packages/core/src/facade.ts b/packages/core/src/facade.ts
index b17bb52..35eaf62 100644
--- a/packages/core/src/facade.ts
+++ b/packages/core/src/facade.ts
@@ -2044,13 +2044,27 @@ function collectRootOptionNames(
   names: CurrentOptionNames,
   rootLeadingNames: ReadonlySet<string>,
 ): void {
-  for (const term of usage) {
-    collectRootOptionNamesFromTerm(term, names, rootLeadingNames);
+  for (let i = 0; i < usage.length; i++) {
+    collectRootOptionNamesFromTerm(
+      usage[i],
+      isOptionValueTerm(usage[i + 1]),
+      names,
+      rootLeadingNames,
+    );
   }
 }
 
+/**
+ * Tells whether a usage term is the literal value of the option before it,
+ * as the usage of `conditional()` spells its discriminator.
+ */
+function isOptionValueTerm(term: Usage[number] | undefined): boolean {
+  return term?.type === "literal" && term.optionValue === true;
+}
+
 function collectRootOptionNamesFromTerm(
   term: Usage[number],
+  hasLiteralValue: boolean,
   names: CurrentOptionNames,
   rootLeadingNames: ReadonlySet<string>,
 ): void {
@@ -2058,7 +2072,7 @@ function collectRootOptionNamesFromTerm(
     case "option":
       for (const name of term.names) {
         if (!rootLeadingNames.has(name)) continue;
-        if (term.metavar != null) {
+        if (term.metavar != null || hasLiteralValue) {
           names.value.add(name);
         } else {
           names.flag.add(name);
@@ -2156,10 +2170,11 @@ function collectOptionNamesAtCurrentCommandDepth(
   names: CurrentOptionNames,
   afterMatchedCommand: boolean,
 ): void {
-  for (const term of usage) {
+  for (let i = 0; i < usage.length; i++) {
     if (
       collectOptionNamesAtCurrentCommandDepthFromTerm(
-        term,
+        usage[i],
+        isOptionValueTerm(usage[i + 1]),
         names,
         afterMatchedCommand,
       )
@@ -2171,6 +2186,7 @@ function collectOptionNamesAtCurrentCommandDepth(
 
 function collectOptionNamesAtCurrentCommandDepthFromTerm(
   term: Usage[number],
+  hasLiteralValue: boolean,
   names: CurrentOptionNames,
   afterMatchedCommand: boolean,
 ): boolean {
@@ -2178,7 +2194,7 @@ function collectOptionNamesAtCurrentCommandDepthFromTerm(
     case "command":
       return !afterMatchedCommand;
     case "option":
-      if (term.metavar != null) {
+      if (term.metavar != null || hasLiteralValue) {
         for (const name of term.names) names.value.add(name);
       } else {
         for (const name of term.names) names.flag.add(name);
-- 
2.43.0


From d90e28c81fcc65ecc176bc697c0e0a81898204f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:36 +0000
Subject: [PATCH 32/34] fix: import generated command modules by relative paths
 from dot-named directories

---
 packages/discover/src/generator.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/discover/src/generator.ts b/packages/discover/src/generator.ts
index 8a02e35..55c26ae 100644
--- a/packages/discover/src/generator.ts
+++ b/packages/discover/src/generator.ts
@@ -554,7 +554,10 @@ function displayCommandPath(path: readonly string[]): string {
 
 function relativeModuleSpecifier(fromDir: string, target: string): string {
   const relativePath = normalizeRelativePath(relative(fromDir, target));
-  return relativePath.startsWith(".") ? relativePath : `./${relativePath}`;
+  // A name that merely begins with a dot, such as `.commands`, still needs "./".
+  return /^\.{1,2}(?:\/|$)/.test(relativePath)
+    ? relativePath
+    : `./${relativePath}`;
 }
 
 function relativeImportSpecifier(fromDir: string, target: string): string {
-- 
2.43.0


From 66e3a55c166b67ac4deeda817de2e5f640a001db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:08 +0000
Subject: [PATCH 33/34] fix: run the nested command its name names, not the
 parent command with that name as an argument

---
 packages/discover/src/index.ts | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/packages/discover/src/index.ts b/packages/discover/src/index.ts
index 11f0974..541948e 100644
--- a/packages/discover/src/index.ts
+++ b/packages/discover/src/index.ts
@@ -1181,6 +1181,32 @@ function createExecutableNodeParser(
         );
       }
 
+      // The name of a nested command names that command, even where the parent
+      // command's own grammar could read more tokens as its arguments.
+      if (
+        !context.optionsTerminated && context.buffer.length > 0 &&
+        childParser.leadingNames.has(context.buffer[0])
+      ) {
+        const result = childParser.parse(
+          withExecutableNodeChildContext(
+            context,
+            0,
+            inheritAnnotations(context.state, childParser.initialState),
+            childParser,
+          ),
+        );
+        return mapModeValue(
+          parser.mode,
+          wrapForMode(parser.mode, result),
+          (resolved) =>
+            wrapBranchParseResult(
+              context,
+              { branch: 0, result: resolved, committed: false },
+              resolved,
+            ),
+        );
+      }
+
       const result = parser.parse({
         ...context,
         state: toExclusiveState(activeState, context.state),
-- 
2.43.0


From e5d79f53602e35cee4a748243fc3c6d6c25eb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:42 +0000
Subject: [PATCH 34/34] fix: let seq() pass a prompt() that the command line
 leaves to be asked

The wrapper made by createPromptAdapter() had no canSkip(), so a seq() member
before a command, such as seq([object({f: prompt(...)}), command(...)]), was
never considered complete and every command line was refused.
---
 packages/prompt/src/index.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/prompt/src/index.ts b/packages/prompt/src/index.ts
index 09882ca..5048e8b 100644
--- a/packages/prompt/src/index.ts
+++ b/packages/prompt/src/index.ts
@@ -265,6 +265,11 @@ export function createPromptAdapter<TConfig>(
         : [{ type: "optional", terms: parser.usage }],
       leadingNames: parser.leadingNames,
       acceptingAnyToken: parser.acceptingAnyToken,
+      canSkip(state: TState, exec?: ExecutionContext): boolean {
+        // Without a CLI value, the prompt supplies one on completion.
+        return !isPromptBindState(state) || !state.hasCliValue ||
+          parser.canSkip?.(state.cliState!, exec) === true;
+      },
       shouldDeferCompletion(state: TState): boolean {
         return !isPromptBindState(state) || !state.hasCliValue;
       },
-- 
2.43.0

