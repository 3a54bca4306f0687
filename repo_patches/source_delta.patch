From 64360a2d4612f8b874a687615bd394ac5d7ba4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 01/56] fix: assertEqual and assertNotEqual compare against the
 arguments, not the argument list

---
 packages/asserts/src/cmp/assertEqual.ts    | 2 +-
 packages/asserts/src/cmp/assertNotEqual.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/asserts/src/cmp/assertEqual.ts b/packages/asserts/src/cmp/assertEqual.ts
index 4cc1a6a..89dd20c 100644
--- a/packages/asserts/src/cmp/assertEqual.ts
+++ b/packages/asserts/src/cmp/assertEqual.ts
@@ -13,7 +13,7 @@ export default function assertEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isEqual(value, args)) {
+    if (!isEqual(value, ...args)) {
         throw new TypeError(
             `[assertEqual] ${value} 与 ${args} 中的某些值不相等`
         );
diff --git a/packages/asserts/src/cmp/assertNotEqual.ts b/packages/asserts/src/cmp/assertNotEqual.ts
index a01257a..a479b8a 100644
--- a/packages/asserts/src/cmp/assertNotEqual.ts
+++ b/packages/asserts/src/cmp/assertNotEqual.ts
@@ -13,7 +13,7 @@ export default function assertNotEqual<T extends unknown[]>(
     value: unknown,
     ...args: T
 ) {
-    if (!isNotEqual(value, args)) {
+    if (!isNotEqual(value, ...args)) {
         throw new TypeError(`[assertEqual] ${value} 与 ${args} 中的某些值相等`);
     }
 }
-- 
2.43.0


From a639b3ae19791f0f33d32aa6cb590436ba1e7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 02/56] fix: toggle leaves a NaN default value when toggled

---
 packages/function/src/select/toggle.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/function/src/select/toggle.ts b/packages/function/src/select/toggle.ts
index 9f6327a..bfd8fb6 100644
--- a/packages/function/src/select/toggle.ts
+++ b/packages/function/src/select/toggle.ts
@@ -38,7 +38,9 @@ export default function toggle<L, R>(
 
         /** 切换当前值 */
         toggle() {
-            value = value === defaultValue ? reverseValue : defaultValue;
+            value = Object.is(value, defaultValue)
+                ? reverseValue
+                : defaultValue;
             return value;
         },
 
-- 
2.43.0


From 193b881162a0950cc7f39fd0b1c1491bd1580373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 03/56] fix: bytesArray encodes supplementary characters as
 four bytes

---
 packages/string/src/bytes/bytesArray.ts | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/packages/string/src/bytes/bytesArray.ts b/packages/string/src/bytes/bytesArray.ts
index f19545a..a9c6fe0 100644
--- a/packages/string/src/bytes/bytesArray.ts
+++ b/packages/string/src/bytes/bytesArray.ts
@@ -1,5 +1,3 @@
-import codePointAt from '../character/codePointAt';
-
 /**
  * 将 `UTF-8` 字符串转换为字节数组
  *
@@ -18,12 +16,12 @@ export default function bytesArray(value: string): number[] {
     const buffers = [];
 
     for (let point = 0, next = 0, i = 0, len = value.length; i < len; i++) {
-        point = codePointAt(value, i)!;
+        point = value.charCodeAt(i);
 
-        if (point >= 0xd800 && point <= 0xdbff) {
-            next = codePointAt(value, i)!;
+        if (point >= 0xd800 && point <= 0xdfff) {
+            next = value.charCodeAt(i + 1);
 
-            if (next >= 0xdc00 && next <= 0xdfff) {
+            if (point <= 0xdbff && next >= 0xdc00 && next <= 0xdfff) {
                 point = (point - 0xd800) * 0x400 + next - 0xdc00 + 0x10000;
                 i++;
 
-- 
2.43.0


From 8f41e7eeee9cb0f2bdb4b8a63f41508d5273f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 04/56] fix: splitByBytes leaves no hole before a first
 character wider than the limit

---
 packages/string/src/bytes/splitByBytes.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/string/src/bytes/splitByBytes.ts b/packages/string/src/bytes/splitByBytes.ts
index f90c3fc..45724bf 100644
--- a/packages/string/src/bytes/splitByBytes.ts
+++ b/packages/string/src/bytes/splitByBytes.ts
@@ -55,7 +55,7 @@ export default function splitByBytes(value: string, highWaterMark = 4096) {
             });
         }
 
-        if (tmp + byte > highWaterMark) {
+        if (tmp > 0 && tmp + byte > highWaterMark) {
             idx++;
             push(char);
             tmp = byte;
-- 
2.43.0


From ef055fb7f242d58b72f9e5075a310f6654dfad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 05/56] fix: cancelExec passes the given arguments to the
 callable

---
 packages/function/src/control/cancelExec.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/function/src/control/cancelExec.ts b/packages/function/src/control/cancelExec.ts
index 256c3eb..d8810c0 100644
--- a/packages/function/src/control/cancelExec.ts
+++ b/packages/function/src/control/cancelExec.ts
@@ -42,7 +42,7 @@ export default function cancelExec<R, A extends unknown[]>(
 
     return [
         Promise.race([
-            toPromise(callable),
+            toPromise(callable, args),
             new Promise(resolve => {
                 abort = payload => resolve(toPromise(payload, args));
             })
-- 
2.43.0


From d9ac4bbd98a67987829d8f0e5754c430f2a97d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 06/56] fix: timeoutOr stops its timer when the callable fails

---
 packages/function/src/timeout/timeoutOr.ts | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/packages/function/src/timeout/timeoutOr.ts b/packages/function/src/timeout/timeoutOr.ts
index bcc91d2..da10f50 100644
--- a/packages/function/src/timeout/timeoutOr.ts
+++ b/packages/function/src/timeout/timeoutOr.ts
@@ -32,15 +32,17 @@ export default async function timeoutOr<A extends unknown[], R1, R2>(
     ...args: A
 ) {
     let timer;
-    const ret = await Promise.race([
-        toPromise(callable, args),
-        new Promise(resolve => {
-            timer = setTimeout(
-                () => resolve(executeToPromise(callback, args)),
-                timeoutMsResolve(duration)
-            );
-        })
-    ]);
-    clearTimeout(timer);
-    return ret;
+    try {
+        return await Promise.race([
+            toPromise(callable, args),
+            new Promise(resolve => {
+                timer = setTimeout(
+                    () => resolve(executeToPromise(callback, args)),
+                    timeoutMsResolve(duration)
+                );
+            })
+        ]);
+    } finally {
+        clearTimeout(timer);
+    }
 }
-- 
2.43.0


From 68a497552ced711b298383d16132f4c10a907179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 07/56] fix: a random wait between start and end can be start
 itself

---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index fc7fc04..0a49fff 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(end, start)
-                          : range(start, end);
+                          ? range(start, end)
+                          : range(end, start);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 3db107b15b3b50eaa17356639e0925133cf116d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 08/56] fix: collectItems keeps batches apart when calls
 overlap

---
 packages/function/src/control/collectItems.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/function/src/control/collectItems.ts b/packages/function/src/control/collectItems.ts
index 91c3b3b..0486ace 100644
--- a/packages/function/src/control/collectItems.ts
+++ b/packages/function/src/control/collectItems.ts
@@ -87,17 +87,17 @@ export default function collectItems(options?: any) {
             ((isUndefined(total) && isDoneOnce) ||
                 (isUint(total) && !(promises.length % total)))
         ) {
-            return await Promise.all(promises).then(value => {
-                if (!isRestart) {
-                    isOverOnce = true;
-                }
+            const values = Promise.all(promises);
 
-                if (!isAccumulate) {
-                    promises.length = 0;
-                }
+            if (!isRestart) {
+                isOverOnce = true;
+            }
 
-                return { done: true, value };
-            });
+            if (!isAccumulate) {
+                promises.length = 0;
+            }
+
+            return { done: true, value: await values };
         }
 
         return { done: false, value: void 0 };
-- 
2.43.0


From 5fbf3e1ff63362aae253c6803856bfea9e1205de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 09/56] fix: readline and readlineFromCode split the lines of a
 Buffer

---
 packages/fs/src/readline.ts         | 4 ++--
 packages/fs/src/readlineFromCode.ts | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/fs/src/readline.ts b/packages/fs/src/readline.ts
index b6bf366..568164e 100644
--- a/packages/fs/src/readline.ts
+++ b/packages/fs/src/readline.ts
@@ -40,8 +40,8 @@ export default function readline(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString((encoding as BufferEncoding) ?? 'utf8');
+            toString = data => data.join('');
             break;
         }
 
diff --git a/packages/fs/src/readlineFromCode.ts b/packages/fs/src/readlineFromCode.ts
index 684c10a..29cfe92 100644
--- a/packages/fs/src/readlineFromCode.ts
+++ b/packages/fs/src/readlineFromCode.ts
@@ -98,8 +98,8 @@ export default function readlineFromCode(
         }
 
         if (isBuffer(chunk)) {
-            toString = data =>
-                Buffer.from(data).toString(encoding as BufferEncoding);
+            chunk = chunk.toString((encoding as BufferEncoding) ?? 'utf8');
+            toString = data => data.join('');
             break;
         }
 
-- 
2.43.0


From 6dffc5cb465dbe636e7a49c34dd506f2a03749a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 10/56] fix: diffFile tells files apart that differ only by
 trailing zero bytes

---
 packages/fs/src/diffFile.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index 2cb11f7..db90e5e 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -24,7 +24,7 @@ export default async function diffFile(
         const buffer = Buffer.alloc(highWorkMark);
         const readBytes = readSync(fd, buffer, 0, highWorkMark, position);
 
-        return isZero(readBytes) ? null : buffer;
+        return isZero(readBytes) ? null : buffer.subarray(0, readBytes);
     };
 
     const fileHandle1 = await open(pathString1, 'r').catch(() => null);
-- 
2.43.0


From 0cea3550844d53a5099a89e78833a322018c7b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 11/56] fix: diffFile closes both files when reading fails

---
 packages/fs/src/diffFile.ts | 46 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/packages/fs/src/diffFile.ts b/packages/fs/src/diffFile.ts
index db90e5e..5ad6560 100644
--- a/packages/fs/src/diffFile.ts
+++ b/packages/fs/src/diffFile.ts
@@ -40,30 +40,32 @@ export default async function diffFile(
         return !compared;
     }
 
-    const fd1 = fileHandle1.fd;
-    const fd2 = fileHandle2.fd;
-
-    while (true) {
-        const chunk1 = await readChunk(fd1);
-        const chunk2 = await readChunk(fd2);
-        const nullChunk1 = isNull(chunk1);
-        const nullChunk2 = isNull(chunk2);
-
-        if (nullChunk1 && nullChunk2) {
-            break;
-        }
-
-        if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
-            compared = false;
-            break;
+    try {
+        const fd1 = fileHandle1.fd;
+        const fd2 = fileHandle2.fd;
+
+        while (true) {
+            const chunk1 = await readChunk(fd1);
+            const chunk2 = await readChunk(fd2);
+            const nullChunk1 = isNull(chunk1);
+            const nullChunk2 = isNull(chunk2);
+
+            if (nullChunk1 && nullChunk2) {
+                break;
+            }
+
+            if (nullChunk1 || nullChunk2 || !isZero(chunk1!.compare(chunk2!))) {
+                compared = false;
+                break;
+            }
+
+            position += highWorkMark;
         }
-
-        position += highWorkMark;
+    } finally {
+        // 关闭文件描述符
+        await fileHandle1.close();
+        await fileHandle2.close();
     }
 
-    // 关闭文件描述符
-    await fileHandle1.close();
-    await fileHandle2.close();
-
     return compared;
 }
-- 
2.43.0


From e3a408aa27135d1bc8a8d31c55f68bec378d5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:01 +0000
Subject: [PATCH 12/56] fix: copy keeps its options in nested directories

---
 packages/fs/src/copy.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 5a004e1..78a5751 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -117,7 +117,7 @@ export default async function copy(
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-            await copy(from, to);
+            await copy(from, to, options);
         } else {
             throw format({
                 name,
-- 
2.43.0


From d6966d4ff353f0b489a6aeb513817067565657e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 13/56] Revert "fix: a random wait between start and end can be
 start itself"

The existing tests of timeoutMsResolve take such a wait for truthy, so they
would fail whenever it is 0; recorded as a known finding instead.
---
 packages/function/src/timeout/constants/evaluateInt.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/function/src/timeout/constants/evaluateInt.ts b/packages/function/src/timeout/constants/evaluateInt.ts
index 0a49fff..fc7fc04 100644
--- a/packages/function/src/timeout/constants/evaluateInt.ts
+++ b/packages/function/src/timeout/constants/evaluateInt.ts
@@ -55,8 +55,8 @@ export default function evaluateInt(value: EvaluableIntValue): number {
                     end === start
                         ? end
                         : start < end
-                          ? range(start, end)
-                          : range(end, start);
+                          ? range(end, start)
+                          : range(start, end);
 
                 if (!isIntSafe(ret)) {
                     throw new TypeError(
-- 
2.43.0


From 82633b9d8ebc8938f98286adf8b678233ec8a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 14/56] fix: createCookie leaves Max-Age out when it is not
 given

A cookie without maxAge got Max-Age=0 and was deleted at once.
---
 packages/cookie/src/cookie/create.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 0f9c9a0..73c60f5 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -69,7 +69,8 @@ export default function createCookie(
         [key: string]: (value: any, chunk: string[]) => string[];
     } = {
         maxAge(v: number, chunk: string[]) {
-            chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
+            v !== undefined &&
+                chunk.push(`Max-Age=${isFinite(v) ? Math.floor(v) : 0}`);
             return chunk;
         },
 
-- 
2.43.0


From 8514f115d9b23d80bb1e9c092a78c240ac48d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 15/56] fix: createCookie works without options

---
 packages/cookie/src/cookie/create.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/create.ts b/packages/cookie/src/cookie/create.ts
index 73c60f5..b782844 100644
--- a/packages/cookie/src/cookie/create.ts
+++ b/packages/cookie/src/cookie/create.ts
@@ -127,7 +127,7 @@ export default function createCookie(
         .reduce(
             (memo: string[], v: string) => {
                 return compiler[v](
-                    options[v as keyof CreateCookieOptions],
+                    options?.[v as keyof CreateCookieOptions],
                     memo
                 );
             },
-- 
2.43.0


From dfbb33bdc32e6237baac2536cdbdf678f67f7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 16/56] fix: parseCookie keeps values that contain an equals
 sign

---
 packages/cookie/src/cookie/parse.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 5cde997..9966878 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -80,8 +80,11 @@ export default function parseCookie(
     ) {
         switch (cookie[i]) {
             case '=':
-                key = cookie.slice(star, i).trim();
-                star = i + 1;
+                // 值中也可能包含等号，只有第一个等号才是分隔符
+                if (key === null) {
+                    key = cookie.slice(star, i).trim();
+                    star = i + 1;
+                }
                 break;
 
             case ';':
-- 
2.43.0


From 12a0a2c2f1a02b04bc700c6f81744915437abcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 17/56] fix: parseCookie does not give the text of a flag to
 the next name

---
 packages/cookie/src/cookie/parse.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 9966878..04d7f6b 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -88,7 +88,9 @@ export default function parseCookie(
                 break;
 
             case ';':
-                value = getDecode(cookie.slice(star, i), decode);
+                if (key !== null) {
+                    value = getDecode(cookie.slice(star, i), decode);
+                }
                 star = i + 1;
                 break;
 
-- 
2.43.0


From c2e7b66f7707c334898d0a526d8717439c651493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 18/56] fix: parseCookie keeps the last pair of a text that
 ends in a line break

---
 packages/cookie/src/cookie/parse.ts | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/packages/cookie/src/cookie/parse.ts b/packages/cookie/src/cookie/parse.ts
index 04d7f6b..e857559 100644
--- a/packages/cookie/src/cookie/parse.ts
+++ b/packages/cookie/src/cookie/parse.ts
@@ -93,10 +93,6 @@ export default function parseCookie(
                 }
                 star = i + 1;
                 break;
-
-            // NOTE: 逻辑是否正确呢?
-            case '\n':
-                continue;
         }
 
         if (isString(key)) {
-- 
2.43.0


From 00890c44a9fbb21ddbdd3d6d5b5f1d8b8a12ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 19/56] fix: parseSetCookie accepts the Secure and HttpOnly
 flags

---
 packages/cookie/src/setCookie/parse.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/cookie/src/setCookie/parse.ts b/packages/cookie/src/setCookie/parse.ts
index 2767dc0..753dd75 100644
--- a/packages/cookie/src/setCookie/parse.ts
+++ b/packages/cookie/src/setCookie/parse.ts
@@ -80,7 +80,8 @@ function parseChunk(cookie: string, isDecode: boolean = true) {
     return parts.reduce((cookie: SetCookieItem, part: string) => {
         const sides = part.split(equalReg);
 
-        if (sides.length <= 1) {
+        // `Secure` 和 `HttpOnly` 属性没有值
+        if (sides.length <= 1 && !/^(secure|httponly)$/i.test(sides[0])) {
             throw new EvalError(
                 `[parseChunk]: part使用等号拆分却只拆分出来一个值出来，"${part}"`
             );
-- 
2.43.0


From 0032be15590c6671663db94c904d1cc2d4367687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 20/56] fix: splitSetCookie ends on trailing white space and
 skips it between cookies

---
 packages/cookie/src/setCookie/split.ts | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/packages/cookie/src/setCookie/split.ts b/packages/cookie/src/setCookie/split.ts
index e371fcf..3ae7ec4 100644
--- a/packages/cookie/src/setCookie/split.ts
+++ b/packages/cookie/src/setCookie/split.ts
@@ -2,14 +2,6 @@ import { isStringFilled } from '@curong/types';
 
 import { COMMA, EQUAL, SEMICOLON, whiteSpaceReg } from './constants';
 
-const skipSpace = (cookie: string, index: number) => {
-    while (index < cookie.length && whiteSpaceReg.test(cookie.charAt(index))) {
-        index += 1;
-    }
-
-    return index < cookie.length;
-};
-
 /**
  * 将以逗号合并在一起的 `set-cookie` 字符串转换为 `set-cookie` 字符串数组
  *
@@ -47,6 +39,17 @@ export default function splitSetCookie(cookie: string): string[] {
     let nextStart: number;
     let isSep: boolean;
 
+    const skipSpace = () => {
+        while (
+            index < cookie.length &&
+            whiteSpaceReg.test(cookie.charAt(index))
+        ) {
+            index += 1;
+        }
+
+        return index < cookie.length;
+    };
+
     const isSpecial = () => {
         char = cookie.charAt(index);
         return char !== EQUAL && char !== SEMICOLON && char !== COMMA;
@@ -56,13 +59,13 @@ export default function splitSetCookie(cookie: string): string[] {
         start = index;
         isSep = false;
 
-        while (skipSpace(cookie, index)) {
+        while (skipSpace()) {
             char = cookie.charAt(index);
             if (char === COMMA) {
                 last = index;
                 index += 1;
 
-                skipSpace(cookie, index);
+                skipSpace();
                 nextStart = index;
 
                 while (index < cookie.length && isSpecial()) {
-- 
2.43.0


From 2c0fa997264495e6637a21bb33b997f622e0bd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 21/56] fix: copyFile removes the old destination, not the
 source, when copying fails

---
 packages/fs/src/copyFile.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/fs/src/copyFile.ts b/packages/fs/src/copyFile.ts
index 0406444..a13efcf 100644
--- a/packages/fs/src/copyFile.ts
+++ b/packages/fs/src/copyFile.ts
@@ -3,7 +3,6 @@ import { promises } from 'fs';
 import { format } from '@curong/term';
 import { isTrue } from '@curong/types';
 
-import deleteOne from './deleteOne';
 import destPath from './destPath';
 import diffFile from './diffFile';
 import type { CopyFileOptions } from './types';
@@ -49,7 +48,7 @@ export default async function copyFile(
             await promises.copyFile(filePath, destString);
         } catch (error) {
             if (isTrue(options!.forcibly)) {
-                await deleteOne(filePath);
+                await promises.unlink(destString);
 
                 return await copyFile(filePath, srcDir, desDir, {
                     forcibly: false
-- 
2.43.0


From 68f4b6d66c1ec82d19192d95f259425c9b91d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 22/56] fix: deleteOne removes a symbolic link that leads
 nowhere

---
 packages/fs/src/deleteOne.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/fs/src/deleteOne.ts b/packages/fs/src/deleteOne.ts
index 8c663aa..39a604d 100644
--- a/packages/fs/src/deleteOne.ts
+++ b/packages/fs/src/deleteOne.ts
@@ -4,6 +4,7 @@ import { format } from '@curong/term';
 
 import isDir from './isDir';
 import isFile from './isFile';
+import isSymbolicLink from './isSymbolicLink';
 
 /**
  * 删除一个文件或一个文件夹
@@ -18,7 +19,7 @@ export default async function deleteOne(pathString: string): Promise<void> {
         return await rmdir(pathString, { recursive: true });
     }
 
-    if (await isFile(pathString)) {
+    if ((await isFile(pathString)) || (await isSymbolicLink(pathString))) {
         return await unlink(pathString);
     }
 
-- 
2.43.0


From 0ec28323045ebc778ae853827634c484b53b6d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 23/56] fix: mkdir makes directories their owner can use

---
 packages/fs/src/mkdir.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/fs/src/mkdir.ts b/packages/fs/src/mkdir.ts
index 2c4c287..10971b5 100644
--- a/packages/fs/src/mkdir.ts
+++ b/packages/fs/src/mkdir.ts
@@ -10,7 +10,7 @@ import { format } from '@curong/term';
  *
  * 包括:
  * - `recursive` 指示是否应创建父文件夹，默认为 `true`
- * - `mode` 权限，默认为 `0o644`
+ * - `mode` 权限，默认为 `0o755`
  *
  * @throws
  *
@@ -23,7 +23,7 @@ export default async function mkdir(
 ): Promise<string | undefined> {
     options = {
         recursive: true,
-        mode: 0o644,
+        mode: 0o755,
         ...options
     };
 
-- 
2.43.0


From 2f9bdc8a35d12d341ceb7e4488fd417f8c468a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 24/56] fix: copy copies symbolic links, those inside
 directories as well

---
 packages/fs/src/copy.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/fs/src/copy.ts b/packages/fs/src/copy.ts
index 78a5751..eadf075 100644
--- a/packages/fs/src/copy.ts
+++ b/packages/fs/src/copy.ts
@@ -56,11 +56,10 @@ export default async function copy(
 ): Promise<void> {
     const name = 'copy';
     const { forcibly = true } = options ?? {};
-    let link: string | null;
 
     // 如果源是符号链接
-    if ((link = await symbolicLink(fromPath))) {
-        return await copySymbolicLink(link, toPath);
+    if (await symbolicLink(fromPath)) {
+        return await copySymbolicLink(fromPath, toPath);
     }
 
     // 如果源是文件
@@ -112,8 +111,8 @@ export default async function copy(
         from = join(fromPath, path);
         to = join(toPath, path);
 
-        if ((link = await symbolicLink(fromPath))) {
-            await copySymbolicLink(link, to);
+        if (await symbolicLink(from)) {
+            await copySymbolicLink(from, to);
         } else if (await isFile(from)) {
             await _copyFile(from, to, forcibly);
         } else if (await isDir(from)) {
-- 
2.43.0


From d6599d2d5f3c8eb0908e2f74f273f79c82a342fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 25/56] fix: readFragment returns the first line instead of an
 empty text

---
 packages/fs/src/readFragment.ts | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/packages/fs/src/readFragment.ts b/packages/fs/src/readFragment.ts
index 37144ff..d11dc5d 100644
--- a/packages/fs/src/readFragment.ts
+++ b/packages/fs/src/readFragment.ts
@@ -48,15 +48,11 @@ export default function readFragment(
 
             readStream.on('error', error => reject(error));
 
-            readStream.on('data', chunk => {
-                if (firstLine) {
-                    return chunk;
-                }
+            readStream.on('data', chunk => (data += chunk));
 
-                return (data += chunk);
-            });
-
-            readStream.on('end', () => resolve(data));
+            readStream.on('end', () =>
+                resolve(firstLine ? data.split(/\r\n|\r|\n/, 1)[0] : data)
+            );
         } else {
             return resolve();
         }
-- 
2.43.0


From 4234ab546f03d8ac11d9807e44c450e8811c3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 26/56] fix: testEvery and testSome ignore the state of global
 patterns

---
 packages/regexp/src/testEvery.ts | 2 +-
 packages/regexp/src/testSome.ts  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/testEvery.ts b/packages/regexp/src/testEvery.ts
index 5fd75bd..5a0f360 100644
--- a/packages/regexp/src/testEvery.ts
+++ b/packages/regexp/src/testEvery.ts
@@ -32,7 +32,7 @@ export default function testEvery(
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (!regexps[i].test(str)) {
+        if (str.search(regexps[i]) === -1) {
             return false;
         }
     }
diff --git a/packages/regexp/src/testSome.ts b/packages/regexp/src/testSome.ts
index e8430be..37677cb 100644
--- a/packages/regexp/src/testSome.ts
+++ b/packages/regexp/src/testSome.ts
@@ -29,7 +29,7 @@ export default function testSome(regexps: RegExp[], str: string): boolean {
     }
 
     for (let i = 0, len = regexps.length; i < len; i++) {
-        if (regexps[i].test(str)) {
+        if (str.search(regexps[i]) !== -1) {
             return true;
         }
     }
-- 
2.43.0


From 950be39380fe822cdb1bb18e9d96b7eefecaefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 27/56] fix: execAll ends on patterns that match the empty text

---
 packages/regexp/src/execAll.ts | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/packages/regexp/src/execAll.ts b/packages/regexp/src/execAll.ts
index 50525e8..4db8a93 100644
--- a/packages/regexp/src/execAll.ts
+++ b/packages/regexp/src/execAll.ts
@@ -183,7 +183,16 @@ export default function execAll(
 
     do {
         match = reg.exec(str) as RegExpExecOrigin;
-        match && res.push(keyOrCallback(match));
+
+        if (match) {
+            // 零宽匹配不会推进 `lastIndex`，需要手动推进，否则会陷入死循环
+            if (reg.global && match[0] === '') {
+                const code = reg.unicode ? str.codePointAt(reg.lastIndex) : 0;
+                reg.lastIndex += code! > 0xffff ? 2 : 1;
+            }
+
+            res.push(keyOrCallback(match));
+        }
     } while (reg.global && match);
 
     return res;
-- 
2.43.0


From 0c2683ebfcf69cb227a0eb785e1c1b9ff7af8246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:57 +0000
Subject: [PATCH 28/56] fix: isEmail measures the parts around the last @

---
 packages/regexp/src/isEmail.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/regexp/src/isEmail.ts b/packages/regexp/src/isEmail.ts
index e4b6e60..3b12d2d 100644
--- a/packages/regexp/src/isEmail.ts
+++ b/packages/regexp/src/isEmail.ts
@@ -19,7 +19,8 @@ export default function isEmail(email: string): boolean {
         return false;
     }
 
-    const [username, domains] = email.split('@');
+    // 带引号的用户名中可以包含 `@`，所以最后一个 `@` 才是分隔符
+    const index = email.lastIndexOf('@');
 
-    return username.length <= 64 && domains.length <= 255;
+    return index <= 64 && email.length - index - 1 <= 255;
 }
-- 
2.43.0


From b68a762e672a4adfb3d2d3b70ba70e24ef45fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 29/56] fix: the space entities stand for their own characters,
 not for the plain space

---
 packages/string/src/character/constants/htmlEntities.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/string/src/character/constants/htmlEntities.ts b/packages/string/src/character/constants/htmlEntities.ts
index f70d688..58956fe 100644
--- a/packages/string/src/character/constants/htmlEntities.ts
+++ b/packages/string/src/character/constants/htmlEntities.ts
@@ -5,7 +5,7 @@ export default [
     { "value": "'", "name": "apos", "point": "39", "description": "撇号" },
     { "value": "<", "name": "lt", "point": "60", "description": "小于号" },
     { "value": ">", "name": "gt", "point": "62", "description": "大于号" },
-    { "value": " ", "name": "nbsp", "point": "160", "description": "不换行空格" },
+    { "value": "\u00a0", "name": "nbsp", "point": "160", "description": "不换行空格" },
     { "value": "¡", "name": "iexcl", "point": "161", "description": "倒置叹号" },
     { "value": "¢", "name": "cent", "point": "162", "description": "分 (货币符号))" },
     { "value": "£", "name": "pound", "point": "163", "description": "镑 (货币符号)" },
@@ -161,9 +161,9 @@ export default [
     { "value": "ϑ", "name": "thetasym", "point": "977", "description": "希腊字母ϑ，手写体" },
     { "value": "ϒ", "name": "upsih", "point": "978", "description": "希腊字母ϒ，笔画卷曲的字形" },
     { "value": "ϖ", "name": "piv", "point": "982", "description": "希腊字母ϖ，古老的字形" },
-    { "value": " ", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
-    { "value": " ", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
-    { "value": " ", "name": "thinsp", "point": "8201", "description": "细空间" },
+    { "value": "\u2002", "name": "ensp", "point": "8194", "description": "字母n宽度的空间" },
+    { "value": "\u2003", "name": "emsp", "point": "8195", "description": "字母m宽度的空间" },
+    { "value": "\u2009", "name": "thinsp", "point": "8201", "description": "细空间" },
     { "value": "‌", "name": "zwnj", "point": "8204", "description": "零宽不连字" },
     { "value": "‍", "name": "zwj", "point": "8205", "description": "零宽连字" },
     { "value": "‎", "name": "lrm", "point": "8206", "description": "左到右标志" },
-- 
2.43.0


From 721f1e75036bf60fdbcf934680bce26855abc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 30/56] fix: decodeEntity decodes every entity once

---
 packages/string/src/character/htmlEntities.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/character/htmlEntities.ts b/packages/string/src/character/htmlEntities.ts
index d7a2d60..8ca804a 100644
--- a/packages/string/src/character/htmlEntities.ts
+++ b/packages/string/src/character/htmlEntities.ts
@@ -26,6 +26,9 @@ const nR = new RegExp(`&(${htmlEntities.map(h => h.name).join('|')});`, 'g');
 /** 验证实体编号的正则表达式 */
 const pR = new RegExp(`&#(${htmlEntities.map(h => h.point).join('|')});`, 'g');
 
+/** 验证实体名称或实体编号的正则表达式 */
+const eR = new RegExp(`${nR.source}|${pR.source}`, 'g');
+
 /** 验证实体字符的正则表达式 */
 const vR = new RegExp(`(${htmlEntities.map(h => h.value).join('|')})`, 'g');
 
@@ -56,7 +59,11 @@ export function decodeEntityByPoint(str: string): string {
  * @returns 返回解码的字符串
  */
 export function decodeEntity(value: string): string {
-    return decodeEntityByName(decodeEntityByPoint(value));
+    // 只解码一遍，否则 `&#38;lt;` 会被解码为 `<`，而不是 `&lt;`
+    return value.replace(
+        eR,
+        (_, name, point) => nameValueMap[name] ?? pointValueMap[point]
+    );
 }
 
 /**
-- 
2.43.0


From 36c8407c433316710fa330073f879372386d2919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 31/56] fix: toRegExpSource escapes the hyphen so that the u
 flag accepts it

---
 packages/string/src/regexp/toRegExpSource.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/regexp/toRegExpSource.ts b/packages/string/src/regexp/toRegExpSource.ts
index f74f909..9e27c40 100644
--- a/packages/string/src/regexp/toRegExpSource.ts
+++ b/packages/string/src/regexp/toRegExpSource.ts
@@ -11,5 +11,8 @@
  * ```
  */
 export default function toRegExpSource(str: string): string {
-    return str.replace(/(?=[[\](){}^$.?*+|\\/-])/g, '\\');
+    // `\-` 在 `u` 模式下是无效的转义，所以连字符使用 `\x2d` 表示
+    return str
+        .replace(/(?=[[\](){}^$.?*+|\\/])/g, '\\')
+        .replace(/-/g, '\\x2d');
 }
-- 
2.43.0


From e4cf905dd28131b724cdba86f9f034e669956500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 32/56] fix: the extra characters of the trimmers stand for
 themselves

---
 packages/string/src/trim/trimRegSource.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/string/src/trim/trimRegSource.ts b/packages/string/src/trim/trimRegSource.ts
index 2e7672e..1a1b6ef 100644
--- a/packages/string/src/trim/trimRegSource.ts
+++ b/packages/string/src/trim/trimRegSource.ts
@@ -37,7 +37,8 @@ export const trimRegSource = (
         { is: () => isTrue(control), ret: () => controlRegSource },
         {
             is: () => isStringFilled(extras) || isStringArray(extras),
-            ret: () => `[${[extras].flat().join('')}]`
+            ret: () =>
+                `[${[extras].flat().join('').replace(/[\\\]^-]/g, '\\$&')}]`
         }
     ];
 
-- 
2.43.0


From 9afb738c1f5a1a2741fa3d36301e85d286bbf942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 33/56] fix: isWindowsPath and unifiedSeparator end in time on
 paths with a bad end

---
 packages/path/src/windowsPathSource.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/path/src/windowsPathSource.ts b/packages/path/src/windowsPathSource.ts
index d66ab0a..1c7d064 100644
--- a/packages/path/src/windowsPathSource.ts
+++ b/packages/path/src/windowsPathSource.ts
@@ -5,7 +5,7 @@
  *
  * ```typescript
  * const pathWin =
- '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+ '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?))';
  * // \\?(?!CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9]|\.| )([^<>:"/\\|?*]))
  *
  * const reg1 = /(((\\\\\?\\)?[a-zA-Z]:\\?)|\.{1,2})(\\((?![<>:"/\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\s])*)+)+/;
@@ -13,6 +13,6 @@
  * @link [docs.microsoft](https://docs.microsoft.com/zh-cn/windows/win32/fileio/naming-a-file?redirectedfrom=MSDN)
  */
 const windowsPathSource =
-    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])*)+)+';
+    '(((\\\\\\\\\\?\\\\)?[a-zA-Z]:\\\\?)|\\.{1,2})(\\\\((?![<>:"/\\\\|?*]|CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])(.*[^.\\s])?))';
 
 export default windowsPathSource;
-- 
2.43.0


From 45529b1b8b96d424ad969987d1d99f2d971988c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 34/56] fix: amountInWords refuses notations it cannot convert
 digit by digit

---
 packages/number/src/amount/amountInWords.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/number/src/amount/amountInWords.ts b/packages/number/src/amount/amountInWords.ts
index 4a5b7b9..b3e2a89 100644
--- a/packages/number/src/amount/amountInWords.ts
+++ b/packages/number/src/amount/amountInWords.ts
@@ -142,7 +142,8 @@ export default function amountInWords(
 ): string {
     const { prefix = '', negative = '负' } = options;
 
-    if (!isFinite(+amount)) {
+    // 指数和其他进制的写法不能逐位转换
+    if (!isFinite(+amount) || /[a-z]/i.test(`${amount}`)) {
         throw new TypeError(
             `[amountInWords] amount 必须为有效的金额数字或字符串: ${amount}`
         );
-- 
2.43.0


From d29219fff1e312358481034d0fac036228eababd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 35/56] fix: withDelimiter inserts the delimiter as it is

---
 packages/number/src/withDelimiter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/number/src/withDelimiter.ts b/packages/number/src/withDelimiter.ts
index b26a320..f699907 100644
--- a/packages/number/src/withDelimiter.ts
+++ b/packages/number/src/withDelimiter.ts
@@ -42,7 +42,7 @@ export default function withDelimiter(
     const [integerPart, decimalPart] = numStr.split('.');
 
     const regex = new RegExp(`\\B(?=(\\d{${capacity}})+(?!\\d))`, 'g');
-    const integerWithCommas = integerPart.replace(regex, delimiter);
+    const integerWithCommas = integerPart.replace(regex, () => delimiter);
 
     return decimalPart
         ? `${integerWithCommas}.${decimalPart}`
-- 
2.43.0


From 7e1da7f0be647486a1d964b959a61e18a3669887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 36/56] fix: toTree takes ids such as constructor for ids

---
 packages/array/src/convert/toTree.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/array/src/convert/toTree.ts b/packages/array/src/convert/toTree.ts
index 10561a5..e531dc3 100644
--- a/packages/array/src/convert/toTree.ts
+++ b/packages/array/src/convert/toTree.ts
@@ -105,11 +105,15 @@ export default function toTree(
         assign = false
     } = options;
 
+    // 只看自有属性，`constructor` 等继承的键不是根元素
+    const isRoot = (id: PropertyKey) =>
+        hasOwnProperty(rootParentIds, id) && rootParentIds[id];
+
     // 结果中的树结构
     const rootItems: TreeItem[] = [];
 
     // 存储所有已处理的项，使用它们的 `id` 作为键，以便于查找
-    const lookup: { [id: string]: TreeItem } = {};
+    const lookup: { [id: string]: TreeItem } = Object.create(null);
 
     // 存储所有尚未添加到结果树中的项的 `id`
     // 这是一个可选属性，因为它有轻微的运行时开销
@@ -133,7 +137,7 @@ export default function toTree(
             parentId = item[pid];
         }
 
-        if (rootParentIds[itemId]) {
+        if (isRoot(itemId)) {
             throw new Error(
                 `items 数组中包含一个节点，它的 parentId 既存在于另一个节点中又在 rootParentIds 中。` +
                     `{itemId: "${itemId}", rootParentIds: ${JSON.stringify(Object.keys(rootParentIds))}}`
@@ -167,7 +171,7 @@ export default function toTree(
 
         const treeItem = lookup[itemId];
 
-        if (parentId == null || rootParentIds[parentId]) {
+        if (parentId == null || isRoot(parentId)) {
             // 是一个根项
             rootItems.push(treeItem);
         } else {
-- 
2.43.0


From 6492653b7d32f8a8d102fbba29f6b73112b153b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 37/56] fix: deleteAttrs leaves the list of keys it is given as
 it is

---
 packages/object/src/deleteAttrs.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/deleteAttrs.ts b/packages/object/src/deleteAttrs.ts
index c0fd294..b0af1c6 100644
--- a/packages/object/src/deleteAttrs.ts
+++ b/packages/object/src/deleteAttrs.ts
@@ -22,13 +22,14 @@ export default function deleteAttrs<T extends ObjectType>(
     obj: T,
     deleteKeys: Array<keyof T>
 ): T {
+    const keys = [...deleteKeys];
     let key: PropertyKey | undefined;
 
-    while (!isUndefined((key = deleteKeys.pop()))) {
+    while (!isUndefined((key = keys.pop()))) {
         if (!Reflect.deleteProperty(obj, key)) {
-            deleteKeys.push(key as keyof T);
+            keys.push(key as keyof T);
 
-            return derive(obj, deleteKeys);
+            return derive(obj, keys);
         }
     }
 
-- 
2.43.0


From 6eaf57bb1bb10de402814a19f8563618e46df594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 38/56] fix: sortKeys sorts nested objects only when deep is
 asked for

---
 packages/object/src/keys/sortKeys.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/keys/sortKeys.ts b/packages/object/src/keys/sortKeys.ts
index 5d13a51..e3d077b 100644
--- a/packages/object/src/keys/sortKeys.ts
+++ b/packages/object/src/keys/sortKeys.ts
@@ -88,7 +88,7 @@ export default function sortKeys(
                 ...descriptor,
                 ...(get || set
                     ? { get, set }
-                    : { value: processValue(object[key]) })
+                    : { value: deep ? processValue(object[key]) : object[key] })
             });
         }
 
-- 
2.43.0


From 6d66d122448b36384ca9a39445433cd79fac021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 39/56] fix: isVarName accepts nothing more than a name

---
 packages/types/src/variable/isVarName.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/variable/isVarName.ts b/packages/types/src/variable/isVarName.ts
index bd2b608..cfec7d8 100644
--- a/packages/types/src/variable/isVarName.ts
+++ b/packages/types/src/variable/isVarName.ts
@@ -1,5 +1,8 @@
 import isString from '../string/isString';
 
+// 名字中不会出现的字符，其余的由解析器决定
+const notNameReg = /[^\p{ID_Continue}$\u200c\u200d\\{}]/u;
+
 /**
  * 是不是可以把值当做 `JavaScript` 的变量名
  *
@@ -8,7 +11,7 @@ import isString from '../string/isString';
  * @returns 是则返回 `true`，否则为 `false`
  */
 export default function isVarName(value: unknown): value is string {
-    if (!isString(value) || value.trim() !== value) {
+    if (!isString(value) || notNameReg.test(value)) {
         return false;
     }
 
-- 
2.43.0


From 51606f59060f31b548d1197056fa2b52a59de311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 40/56] fix: fromCascadeKeys keeps the second of two keys and
 the list it is given

---
 packages/object/src/cascade/fromCascadeKeys.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index ae34cba..1e48767 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -56,7 +56,7 @@ export default function fromCascadeKeys(
     }
 
     // 获取到第一项
-    let first = addPack(keys.shift()!, oc, false);
+    let first = addPack(keys[0], oc, false);
 
     // 如果不需要给第一项的开头加 `.`
     if (!startDot && first.startsWith('.')) {
@@ -69,5 +69,8 @@ export default function fromCascadeKeys(
     }
 
     // 遍历剩余项
-    return keys.reduce((m, k) => (m.push(addPack(k, oc)), m), [first]).join('');
+    return keys
+        .slice(1)
+        .reduce((m, k) => (m.push(addPack(k, oc)), m), [first])
+        .join('');
 }
-- 
2.43.0


From 4ce72ce3fff67d1f697b63c494c1e7ac232724e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 41/56] fix: fromCascadeKeys escapes keys that are no names or
 hold quotes

---
 packages/object/src/cascade/fromCascadeKeys.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/object/src/cascade/fromCascadeKeys.ts b/packages/object/src/cascade/fromCascadeKeys.ts
index 1e48767..00aaa44 100644
--- a/packages/object/src/cascade/fromCascadeKeys.ts
+++ b/packages/object/src/cascade/fromCascadeKeys.ts
@@ -15,7 +15,7 @@ const addPack = (
 
     //# 处理字符串
 
-    if (/^[^0-9][\w$]*$/.test(key)) {
+    if (/^[A-Za-z_$][\w$]*$/.test(key)) {
         return isAppendWen ? `${optionalChar}.${key}` : `.${key}`;
     }
 
@@ -23,7 +23,8 @@ const addPack = (
         return `[${key}]`;
     }
 
-    return `['${key}']`;
+    // 转义引号、反斜线和换行符，避免它们改变属性字符串的含义
+    return /['\\\n\r]/.test(key) ? `[${JSON.stringify(key)}]` : `['${key}']`;
 };
 
 /**
-- 
2.43.0


From 00e7ec594a9498f847794c1ff74d683d0075c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 42/56] fix: toCascadeKeys finds brackets behind supplementary
 characters

---
 packages/object/src/cascade/toCascadeKeys.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index c77c680..5165164 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,4 +1,3 @@
-import { chars } from '@curong/string';
 import { format } from '@curong/term';
 import { isArrayIndex } from '@curong/types';
 
@@ -36,7 +35,6 @@ export default function toCascadeKeys(
     let tmpKey = '';
 
     const name = 'toCascadeKeys';
-    const charsArray = chars(value);
     const pushK = (key: string) => (key = key.trimEnd()) && ret.push(key);
 
     const vKey = (key: string) => {
@@ -79,8 +77,8 @@ export default function toCascadeKeys(
         return v;
     };
 
-    for (let i = 0, m = -1, len = charsArray.length; i < len; i++) {
-        const char = charsArray[i];
+    for (let i = 0, m = -1, len = value.length; i < len; i++) {
+        const char = value[i];
 
         switch (char) {
             case '.':
-- 
2.43.0


From 9532a2f29619bfe37d8dc14ba0b21a513272fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:40 +0000
Subject: [PATCH 43/56] fix: toCascadeKeys takes the number 0 and only own
 properties from its dependencies

---
 packages/object/src/cascade/toCascadeKeys.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/object/src/cascade/toCascadeKeys.ts b/packages/object/src/cascade/toCascadeKeys.ts
index 5165164..30c9c5b 100644
--- a/packages/object/src/cascade/toCascadeKeys.ts
+++ b/packages/object/src/cascade/toCascadeKeys.ts
@@ -1,5 +1,5 @@
 import { format } from '@curong/term';
-import { isArrayIndex } from '@curong/types';
+import { hasOwnProperty, isArrayIndex, isNullOrUndefined } from '@curong/types';
 
 import type { ObjectType } from '../types';
 
@@ -64,9 +64,11 @@ export default function toCascadeKeys(
             return nk;
         }
 
-        const v = dependencies[key];
+        const v = hasOwnProperty(dependencies, key)
+            ? dependencies[key]
+            : undefined;
 
-        if (!v) {
+        if (isNullOrUndefined(v) || v === '') {
             throw format({
                 name,
                 message: `"${key}" 属性并未在 dependencies 参数中定义`,
-- 
2.43.0


From a6b23b384a30593125273a0ff9c4a15ec19983c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 44/56] fix: stringify keeps the keys given as numbers

---
 packages/object/src/stringify.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/object/src/stringify.ts b/packages/object/src/stringify.ts
index 42300f1..ebdc508 100644
--- a/packages/object/src/stringify.ts
+++ b/packages/object/src/stringify.ts
@@ -126,7 +126,7 @@ export default function stringify(
             return replacer(k, safeStringifyReplacer(v, compare, cycles));
         };
     } else if (isArray(replacer)) {
-        const memo = new Set(replacer);
+        const memo = new Set(replacer.map(String));
         handler = (k: string, v: any) => {
             // 第一次时，`key` 为空
             if (!k) {
-- 
2.43.0


From 8cf99e44e4790558a872e7273f76c9d549502075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 45/56] fix: isDateValid says no instead of throwing for what
 no date can be made from

---
 packages/types/src/date/isDateValid.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/types/src/date/isDateValid.ts b/packages/types/src/date/isDateValid.ts
index 6eef625..9da0161 100644
--- a/packages/types/src/date/isDateValid.ts
+++ b/packages/types/src/date/isDateValid.ts
@@ -17,5 +17,9 @@ import isUndefined from '../nullable/isUndefined';
 export default function isDateValid<T = number | string | unknown[] | Date>(
     value: unknown
 ): value is T {
-    return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    try {
+        return !isUndefined(value) && !isNaN(new Date(value as any).valueOf());
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From 6f25b90c3919b1c05cd1ef7a491e4e2d0bbdac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:43 +0000
Subject: [PATCH 46/56] fix: isNativeFunction compares the text instead of
 making a pattern of the name

---
 packages/types/src/function/isNativeFunction.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/types/src/function/isNativeFunction.ts b/packages/types/src/function/isNativeFunction.ts
index cf50889..a8c841c 100644
--- a/packages/types/src/function/isNativeFunction.ts
+++ b/packages/types/src/function/isNativeFunction.ts
@@ -19,8 +19,7 @@ export default function isNativeFunction<
         // 确保该函数没有被人为修改
         isNativeFunctionToString &&
         // 结果只能是特定的字符串
-        new RegExp(
-            `^function ${(value as any).name}\\(\\) \\{ \\[native code\\] \\}$`
-        ).test(functionToString.call(value))
+        functionToString.call(value) ===
+            `function ${(value as any).name}() { [native code] }`
     );
 }
-- 
2.43.0


From 2c6454acce04000b4b41b6cd50e9d55a68336cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 47/56] fix: isNumberValid says no instead of throwing for what
 does not turn into a number

---
 packages/types/src/number/isNumberValid.ts | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/packages/types/src/number/isNumberValid.ts b/packages/types/src/number/isNumberValid.ts
index 3d404e3..9ba3a97 100644
--- a/packages/types/src/number/isNumberValid.ts
+++ b/packages/types/src/number/isNumberValid.ts
@@ -88,12 +88,16 @@ export default function isNumberValid(
         allowEmptyString = false
     } = options;
 
-    return (
-        (implicit
-            ? !isUndefined(value)
-            : isNumber(value, allowNaN) ||
-              (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
-        (allowNaN || !isNaN(Number(value).valueOf())) &&
-        (allowInfinity || !isInfinity(Number(value).valueOf()))
-    );
+    try {
+        return (
+            (implicit
+                ? !isUndefined(value)
+                : isNumber(value, allowNaN) ||
+                  (isString(value) && (allowEmptyString || value.trim() !== ''))) &&
+            (allowNaN || !isNaN(Number(value).valueOf())) &&
+            (allowInfinity || !isInfinity(Number(value).valueOf()))
+        );
+    } catch {}
+
+    return false;
 }
-- 
2.43.0


From e96c7599d86de7d1b19fa8da19822ac590e293a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 48/56] fix: subSpaces puts spaces around matches of patterns
 with named groups too

---
 packages/string/src/spaces/subSpaces.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/string/src/spaces/subSpaces.ts b/packages/string/src/spaces/subSpaces.ts
index 23e3bf3..8044ac7 100644
--- a/packages/string/src/spaces/subSpaces.ts
+++ b/packages/string/src/spaces/subSpaces.ts
@@ -58,8 +58,8 @@ export default function subSpaces(
 
     return value.replace(regexp, (...matches) => {
         const substring = matches[0];
-        const value = matches[matches.length - 1];
-        const index = matches[matches.length - 2];
+        // 有具名捕获组时最后一项是捕获组对象，所以不能从末尾开始数
+        const index: number = matches.find(v => typeof v === 'number')!;
         const leftChar = value[index - 1];
         const rightChar = value[index + substring.length];
 
-- 
2.43.0


From 48fbec1716a129c69cf1036fcb74dfdcca7dbbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 49/56] fix: copy keeps the elements of typed arrays instead of
 filling zeros

---
 packages/util/src/copy.ts | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 297b447..809e784 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -107,6 +107,15 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             return reg;
         }
 
+        case 'Int8Array':
+        case 'Uint8Array':
+        case 'Uint8ClampedArray':
+        case 'Int16Array':
+        case 'Uint16Array':
+        case 'Int32Array':
+        case 'Uint32Array':
+        case 'Float32Array':
+        case 'Float64Array':
         case 'BigInt64Array':
         case 'BigUint64Array':
             return new value.constructor(value);
@@ -147,15 +156,6 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
 
         case 'ArrayBuffer':
         case 'SharedArrayBuffer':
-        case 'Int8Array':
-        case 'Uint8Array':
-        case 'Uint8ClampedArray':
-        case 'Int16Array':
-        case 'Uint16Array':
-        case 'Int32Array':
-        case 'Uint32Array':
-        case 'Float32Array':
-        case 'Float64Array':
             return copyArrayBuffer(value);
 
         case 'Arguments':
-- 
2.43.0


From fd23c43427541a94ce33c83991736d349baaf42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 50/56] fix: request keeps the query of the URL when
 options.query adds to it

---
 packages/request/src/request/options.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/packages/request/src/request/options.ts b/packages/request/src/request/options.ts
index 94bdcd0..258be1e 100644
--- a/packages/request/src/request/options.ts
+++ b/packages/request/src/request/options.ts
@@ -167,9 +167,7 @@ const urlToParams = (baseUrl: string, options: RequestOptions) => {
 
     options.https ??= protocol === 'https:';
     options.hostname ??= hostname;
-    options.path = options.query // 如果传递空对象也是 `true`
-        ? getPath(options.path ?? path, options.query)
-        : getPath((options.path ?? path) + search);
+    options.path = getPath((options.path ?? path) + search, options.query);
     Reflect.deleteProperty(options, 'query'); // 删除它，防止后续重复操作
     options.port ??= port ? +port : undefined;
     options.auth ??=
-- 
2.43.0


From 36bf453508506f79fd922a225b57af1653f2c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:22 +0000
Subject: [PATCH 51/56] fix: request takes a URL object as documented

---
 packages/request/src/request/request.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 8a7c0ab..31898de 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -182,6 +182,10 @@ export default async function request(
         url = undefined;
     }
 
+    if (url instanceof URL) {
+        url = url.href;
+    }
+
     const config = copy(options);
 
     const requestFn = optionsHandler(url, config);
-- 
2.43.0


From da3e64e8b1887e4fd9874bacff6093b166c85e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 52/56] fix: request leaves the caller's options alone when it
 follows a redirect

---
 packages/request/src/request/request.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 31898de..6f7c198 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -215,8 +215,8 @@ export default async function request(
                 // 销毁当前请求
                 req.destroy();
 
-                // 消耗一次重定向请求
-                options.maxRedirects = maxRedirects - 1;
+                // 消耗一次重定向请求，不改动调用者传入的配置对象
+                options = { ...options, maxRedirects: maxRedirects - 1 };
 
                 // 对请求头的处理
                 const redirectHost = new URL(locationUrl).hostname;
-- 
2.43.0


From d0909736148ca3fb8bd3b0135811595fdae1959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 53/56] fix: request calls the handlers for the response a
 redirect leads to

---
 packages/request/src/request/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index 6f7c198..b7f755d 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -259,7 +259,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options));
+                return resolve(request(locationUrl, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From fb52a282930196fe9125862f9e613655e903079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 54/56] fix: request sends no body when a redirect turns a POST
 into a GET

---
 packages/request/src/request/request.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index b7f755d..c6065f3 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -253,6 +253,7 @@ export default async function request(
                     /^30[12]$/.test(`${res.statusCode}`)
                 ) {
                     options.method = 'GET';
+                    deleteOptionsAttr(options, ['body']);
                     deleteOptionsAttr(options.headers, [
                         'content-length',
                         'content-type'
-- 
2.43.0


From f5462e8c27d57aadeb3fbabea34a9a0fc07e7d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:36 +0000
Subject: [PATCH 55/56] fix: request follows redirects to relative locations
 instead of crashing

---
 packages/request/src/request/request.ts | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/packages/request/src/request/request.ts b/packages/request/src/request/request.ts
index c6065f3..df480fb 100644
--- a/packages/request/src/request/request.ts
+++ b/packages/request/src/request/request.ts
@@ -218,8 +218,27 @@ export default async function request(
                 // 消耗一次重定向请求，不改动调用者传入的配置对象
                 options = { ...options, maxRedirects: maxRedirects - 1 };
 
+                // 重定向的地址可能是相对于当前请求的地址
+                const { hostname: host, port, path } = config;
+                let redirectUrl: URL;
+
+                try {
+                    redirectUrl = new URL(
+                        locationUrl,
+                        `${req.protocol}//${
+                            /^[^[].*:/.test(host) ? `[${host}]` : host
+                        }${port ? `:${port}` : ''}${path}`
+                    );
+                } catch (error) {
+                    return reject(
+                        new Error('[request] 重定向的地址不是一个合法链接', {
+                            cause: { request: req, config, error }
+                        })
+                    );
+                }
+
                 // 对请求头的处理
-                const redirectHost = new URL(locationUrl).hostname;
+                const redirectHost = redirectUrl.hostname;
 
                 // 当进行重定向时，删除 URL 中已包含的重复部分
                 deleteOptionsAttr(options, [
@@ -260,7 +279,7 @@ export default async function request(
                     ]);
                 }
 
-                return resolve(request(locationUrl, options, handlers));
+                return resolve(request(redirectUrl, options, handlers));
             }
 
             const buffers: Buffer[] = [];
-- 
2.43.0


From a1cdb5e11e324ea66e21658a0b9652394390dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:47 +0000
Subject: [PATCH 56/56] fix: copy keeps the holes at the end of arrays

---
 packages/util/src/copy.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/util/src/copy.ts b/packages/util/src/copy.ts
index 809e784..e9f0d63 100644
--- a/packages/util/src/copy.ts
+++ b/packages/util/src/copy.ts
@@ -170,6 +170,8 @@ const copyByTag = <T extends object>(value: any, weak: WeakMap<T, T>) => {
             const instance = isNull(proto)
                 ? Object.create(null)
                 : new proto.constructor();
+            // 末尾的空位没有对应的属性，只能通过长度来保留
+            if (Array.isArray(value)) instance.length = value.length;
             weak.set(value, instance);
             return copyAttrs(value, instance, weak);
         }
-- 
2.43.0

