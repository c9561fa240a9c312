From d5b57effb70068d87b2300de25cc25e1ac94b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 1/9] fix: don't leave a stray space where NO_MS_KEYWORDS drops
 __restrict

---
 src/nodes/enums.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nodes/enums.rs b/src/nodes/enums.rs
index 70abf2f..4fa7047 100644
--- a/src/nodes/enums.rs
+++ b/src/nodes/enums.rs
@@ -56,9 +56,6 @@ impl SingleQualifier {
             Self::Const => "const",
             Self::Volatile => "volatile",
             Self::Restrict => {
-                if flags.no_ms_keywords() {
-                    return Ok(());
-                }
                 if flags.no_leading_underscores() {
                     "restrict"
                 } else {
@@ -122,7 +119,8 @@ impl Qualifiers {
         mask: SingleQualifier,
         needs_space: bool,
     ) -> Result<bool> {
-        if !self.contains(mask.into()) {
+        let is_suppressed = matches!(mask, SingleQualifier::Restrict) && flags.no_ms_keywords();
+        if !self.contains(mask.into()) || is_suppressed {
             return Ok(needs_space);
         }
 
-- 
2.43.0


From e517512d3b1bad47b2ab72b9c056545535e2d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 2/9] fix: don't print noexcept after the name under NAME_ONLY

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 6b1dcd1..79c0481 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -246,7 +246,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept {
+        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
             write!(ob, " noexcept")?;
         }
 
-- 
2.43.0


From 0b7b27a009ab9ad3a5e5d1babccb1003e5d84aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 3/9] fix: print both halves of a function pointer's return
 type under NAME_ONLY

---
 src/nodes/derived.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 79c0481..5d88de8 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -258,7 +258,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && !flags.name_only() {
+        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
-- 
2.43.0


From ef8fd37371b433563da6a535658a8c9750fc923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 4/9] fix: don't rescan the whole output to find its last
 character

---
 src/demangler.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index fc12d3c..24cccca 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -119,7 +119,11 @@ mod writing {
         }
 
         fn last_char(&self) -> Option<char> {
-            match std::str::from_utf8(self.as_bytes()) {
+            // only look at the final character: validating the whole buffer here
+            // would make printing quadratic in the length of the output
+            let bytes = self.as_bytes();
+            let start = bytes.iter().rposition(|&x| x & 0xC0 != 0x80)?;
+            match std::str::from_utf8(&bytes[start..]) {
                 Ok(string) => string.chars().next_back(),
                 Err(_) => None,
             }
-- 
2.43.0


From 03b63a7640a249695c41fa0d7560ed1611860b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 5/9] fix: tell template instantiations apart by their mangled
 form when back-referencing

Two instantiations that are mangled differently can be printed alike, either
because of the flags (NO_TAG_SPECIFIER) or because of an `auto` parameter.  They
were then memorised as one name, and every later back-reference was off by one.
---
 src/demangler.rs | 75 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 24cccca..cc019ed 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -198,13 +198,21 @@ mod writing {
 
 use writing::BufWriter;
 
+#[derive(Clone, Copy)]
+struct BackrefName<'alloc> {
+    // What makes this name distinct: the mangled form of a template instantiation,
+    // and the name itself for everything else.
+    key: &'alloc str,
+    node: NodeHandle<NamedIdentifier>,
+}
+
 #[derive(Default)]
-struct BackrefContext {
+struct BackrefContext<'alloc> {
     function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,
 
     // The first 10 BackReferences in a mangled name can be back-referenced by
     // special name @[0-9]. This is a storage for the first 10 BackReferences.
-    names: ArrayVec<NodeHandle<NamedIdentifier>, 10>,
+    names: ArrayVec<BackrefName<'alloc>, 10>,
 }
 
 #[derive(Clone, Copy)]
@@ -246,7 +254,7 @@ pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
-    backrefs: BackrefContext,
+    backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
 }
 
@@ -1096,26 +1104,33 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // First 10 strings can be referenced by special BackReferences ?0, ?1, ..., ?9.
     // Memorize it.
     fn memorize_string(&mut self, s: &'alloc str) -> Result<()> {
-        if !self.backrefs.names.is_full()
-            && self
-                .backrefs
-                .names
-                .iter()
-                .all(|x| x.resolve(&self.cache).name != s)
-        {
-            let name = self.cache.intern(NamedIdentifierNode {
-                name: s,
+        let is_distinct = self
+            .backrefs
+            .names
+            .iter()
+            .all(|x| x.node.resolve(&self.cache).name != s);
+        if is_distinct {
+            self.memorize_name(s, s)
+        } else {
+            Ok(())
+        }
+    }
+
+    fn memorize_name(&mut self, key: &'alloc str, name: &'alloc str) -> Result<()> {
+        if !self.backrefs.names.is_full() {
+            let node = self.cache.intern(NamedIdentifierNode {
+                name,
                 ..Default::default()
             })?;
             // SAFETY: we just verified the array is not full
-            unsafe { self.backrefs.names.push_unchecked(name) };
+            unsafe { self.backrefs.names.push_unchecked(BackrefName { key, node }) };
         }
         Ok(())
     }
 
-    fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
-        // Render this class template name into a string buffer so that we can
-        // memorize it for the purpose of back-referencing.
+    // Render this name into a string buffer so that we can memorize it for the
+    // purpose of back-referencing.
+    fn render_identifier(&self, identifier: NodeHandle<IIdentifierNode>) -> Result<&'alloc str> {
         let mut ob = {
             let ob = alloc::new_vec(self.allocator);
             BufWriter::new(ob)
@@ -1123,7 +1138,27 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
         identifier
             .resolve(&self.cache)
             .output(&self.cache, &mut ob, self.flags)?;
-        self.memorize_string(ob.try_into()?)
+        Ok(ob.try_into()?)
+    }
+
+    fn memorize_identifier(&mut self, identifier: NodeHandle<IIdentifierNode>) -> Result<()> {
+        let name = self.render_identifier(identifier)?;
+        self.memorize_string(name)
+    }
+
+    // Two instantiations can be different and still be printed alike (it depends on
+    // the flags, too), but then they are mangled differently.
+    fn memorize_template(
+        &mut self,
+        mangled: &'alloc str,
+        identifier: NodeHandle<IIdentifierNode>,
+    ) -> Result<()> {
+        if self.backrefs.names.iter().all(|x| x.key != mangled) {
+            let name = self.render_identifier(identifier)?;
+            self.memorize_name(mangled, name)
+        } else {
+            Ok(())
+        }
     }
 
     // Parses a type name in the form of A@B@C@@ which represents C::B::A.
@@ -1250,13 +1285,14 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .names
             .get(i as usize)
             .ok_or(Error::InvalidBackRef)?;
-        Ok(*node)
+        Ok(node.node)
     }
 
     fn demangle_template_instantiation_name(
         &mut self,
         nbb: NameBackrefBehavior,
     ) -> Result<NodeHandle<IIdentifierNode>> {
+        let mangled = self.mangled_name.as_str();
         self.mangled_name
             .try_consume_str("?$")
             .ok_or(Error::InvalidTemplateInstantiationName)?;
@@ -1282,7 +1318,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             ) {
                 return Err(Error::InvalidTemplateInstantiationName);
             }
-            self.memorize_identifier(identifier)?;
+            let len = mangled.len() - self.mangled_name.len_bytes();
+            self.memorize_template(&mangled[..len], identifier)?;
         }
 
         Ok(identifier)
-- 
2.43.0


From 9611457ef785da6bf96d8a9e68d9081c1da6d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 6/9] fix: limit how deeply names may nest

Parsing and printing are recursive, so a short malformed name such as
"?x@@3" followed by a few ten thousand "PA" overflowed the stack and took the
whole process down.  Nesting deeper than 256 levels is now reported as malicious
input, like too many nodes and too much output already were.
---
 src/demangler.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index cc019ed..16ae8fd 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -250,12 +250,15 @@ enum FunctionIdentifierCodeGroup {
     DoubleUnder,
 }
 
+const MAX_DEPTH: usize = 256;
+
 pub(crate) struct Demangler<'alloc, 'string: 'alloc> {
     mangled_name: MangledString<'string>,
     allocator: &'alloc Bump,
     cache: NodeCache<'alloc>,
     backrefs: BackrefContext<'alloc>,
     flags: OutputFlags,
+    depth: usize,
 }
 
 impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
@@ -270,9 +273,24 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             cache: NodeCache::new(allocator),
             backrefs: BackrefContext::default(),
             flags,
+            depth: 0,
         }
     }
 
+    // Every way to nest one construct inside another goes through here, so that
+    // the nesting of the input can't exhaust the stack, neither while parsing it nor
+    // while printing the result.
+    fn nest<T>(&mut self, f: impl FnOnce(&mut Self) -> Result<T>) -> Result<T> {
+        if self.depth == MAX_DEPTH {
+            // no compiler emits names that are nested this deeply... bail
+            return Err(Error::MaliciousInput);
+        }
+        self.depth += 1;
+        let result = f(self);
+        self.depth -= 1;
+        result
+    }
+
     pub(crate) fn parse_into(mut self, result: &mut String) -> Result<()> {
         // in case of error, we should give the allocated buffer back to the user
         macro_rules! safe_restore_buffer {
@@ -304,6 +322,10 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn do_parse(&mut self) -> Result<NodeHandle<ISymbolNode>> {
+        self.nest(Self::demangle_symbol)
+    }
+
+    fn demangle_symbol(&mut self) -> Result<NodeHandle<ISymbolNode>> {
         // Typeinfo names are strings stored in RTTI data. They're not symbol names.
         // It's still useful to demangle them. They're the only demangled entity
         // that doesn't start with a "?" but a ".".
@@ -556,6 +578,13 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     // <variable-type> ::= <type> <cvr-qualifiers>
     //                 ::= <type> <pointee-cvr-qualifiers> # pointers, references
     fn demangle_type(&mut self, qmm: QualifierMangleMode) -> Result<NodeHandle<ITypeNode>> {
+        self.nest(|this| this.demangle_qualified_type(qmm))
+    }
+
+    fn demangle_qualified_type(
+        &mut self,
+        qmm: QualifierMangleMode,
+    ) -> Result<NodeHandle<ITypeNode>> {
         let quals = match qmm {
             QualifierMangleMode::Mangle => self.demangle_qualifiers()?.0,
             QualifierMangleMode::Result => {
@@ -1298,7 +1327,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .ok_or(Error::InvalidTemplateInstantiationName)?;
 
         let outer_context = mem::take(&mut self.backrefs);
-        let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;
+        let identifier = self
+            .nest(|this| this.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple))?;
         {
             let template_params = self.demangle_template_parameter_list()?;
             identifier
-- 
2.43.0


From 28ff6b1e576bbae31f2c3373a7ca11ca370ea243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:48 +0000
Subject: [PATCH 7/9] fix: print function types in full under NAME_ONLY

---
 src/nodes/derived.rs | 71 ++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/nodes/derived.rs b/src/nodes/derived.rs
index 5d88de8..8a02dad 100644
--- a/src/nodes/derived.rs
+++ b/src/nodes/derived.rs
@@ -153,7 +153,7 @@ impl FunctionSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.no_access_specifier() && !flags.name_only() {
+        if !flags.no_access_specifier() {
             if self.function_class.is_public() {
                 write!(ob, "public: ")?;
             }
@@ -165,7 +165,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_member_type() && !flags.name_only() {
+        if !flags.no_member_type() {
             if !self.function_class.is_global() && self.function_class.is_static() {
                 write!(ob, "static ")?;
             }
@@ -177,18 +177,14 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_pre(cache, ob, flags)?;
                 write!(ob, " ")?;
             }
         }
 
-        if !is_function_ptr
-            && !flags.no_calling_convention()
-            && !flags.no_ms_keywords()
-            && !flags.name_only()
-        {
+        if !is_function_ptr && !flags.no_calling_convention() && !flags.no_ms_keywords() {
             if let Some(call_convention) = self.call_convention {
                 call_convention.output(ob, flags)?;
             }
@@ -202,9 +198,8 @@ impl FunctionSignatureNode {
         cache: &NodeCache,
         ob: &mut dyn Writer,
         flags: OutputFlags,
-        is_function_ptr: bool,
     ) -> Result<()> {
-        if (is_function_ptr || !flags.name_only()) && !self.function_class.no_parameter_list() {
+        if !self.function_class.no_parameter_list() {
             write!(ob, "(")?;
             if let Some(params) = self.params.map(|x| x.resolve(cache)) {
                 params.output(cache, ob, flags)?;
@@ -221,7 +216,7 @@ impl FunctionSignatureNode {
             write!(ob, ")")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             if self.quals.is_const() {
                 write!(ob, " const")?;
             }
@@ -246,11 +241,11 @@ impl FunctionSignatureNode {
             }
         }
 
-        if self.is_noexcept && (is_function_ptr || !flags.name_only()) {
+        if self.is_noexcept {
             write!(ob, " noexcept")?;
         }
 
-        if !flags.no_this_type() && !flags.name_only() {
+        if !flags.no_this_type() {
             match self.ref_qualifier {
                 Some(FunctionRefQualifier::Reference) => write!(ob, " &")?,
                 Some(FunctionRefQualifier::RValueReference) => write!(ob, " &&")?,
@@ -258,7 +253,7 @@ impl FunctionSignatureNode {
             }
         }
 
-        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {
+        if !flags.no_return_type() {
             if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {
                 return_type.output_post(cache, ob, flags)?;
             }
@@ -301,7 +296,7 @@ impl WriteableTypeNode for FunctionSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -327,20 +322,12 @@ impl ThunkSignatureNode {
         flags: OutputFlags,
         is_function_ptr: bool,
     ) -> Result<()> {
-        if !flags.name_only() {
-            write!(ob, "[thunk]: ")?;
-        }
+        write!(ob, "[thunk]: ")?;
         self.function_node
             .do_output_pre(cache, ob, flags, is_function_ptr)
     }
 
-    fn do_output_post(
-        &self,
-        cache: &NodeCache,
-        ob: &mut dyn Writer,
-        flags: OutputFlags,
-        is_function_ptr: bool,
-    ) -> Result<()> {
+    fn output_adjustment(&self, ob: &mut dyn Writer) -> Result<()> {
         let ThisAdjustor {
             static_offset,
             vbptr_offset,
@@ -358,8 +345,17 @@ impl ThunkSignatureNode {
             }
         }
 
-        self.function_node
-            .do_output_post(cache, ob, flags, is_function_ptr)
+        Ok(())
+    }
+
+    fn do_output_post(
+        &self,
+        cache: &NodeCache,
+        ob: &mut dyn Writer,
+        flags: OutputFlags,
+    ) -> Result<()> {
+        self.output_adjustment(ob)?;
+        self.function_node.do_output_post(cache, ob, flags)
     }
 }
 
@@ -394,7 +390,7 @@ impl WriteableTypeNode for ThunkSignatureNode {
         ob: &mut dyn Writer,
         flags: OutputFlags,
     ) -> Result<()> {
-        self.do_output_post(cache, ob, flags, false)
+        self.do_output_post(cache, ob, flags)
     }
 }
 
@@ -491,10 +487,10 @@ impl WriteableTypeNode for PointerTypeNode {
         if let TypeNode::Signature(sig) = pointee {
             match sig {
                 SignatureNode::FunctionSignature(func) => {
-                    func.do_output_post(cache, ob, flags, true)
+                    func.do_output_post(cache, ob, flags)
                 }
                 SignatureNode::ThunkSignature(thunk) => {
-                    thunk.do_output_post(cache, ob, flags, true)
+                    thunk.do_output_post(cache, ob, flags)
                 }
             }
         } else {
@@ -1236,11 +1232,20 @@ pub(crate) struct FunctionSymbolNode {
 
 impl WriteableNode for FunctionSymbolNode {
     fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {
-        self.signature.resolve(cache).output_pre(cache, ob, flags)?;
-        super::output_space_if_necessary(ob)?;
+        let signature = self.signature.resolve(cache);
+        if !flags.name_only() {
+            signature.output_pre(cache, ob, flags)?;
+            super::output_space_if_necessary(ob)?;
+        }
         if let Some(name) = self.name {
             name.resolve(cache).output(cache, ob, flags)?;
         }
-        self.signature.resolve(cache).output_post(cache, ob, flags)
+        if !flags.name_only() {
+            signature.output_post(cache, ob, flags)
+        } else if let SignatureNode::ThunkSignature(thunk) = signature {
+            thunk.output_adjustment(ob)
+        } else {
+            Ok(())
+        }
     }
 }
-- 
2.43.0


From 387eff446c3df4360f75355cda100e60d073a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:29 +0000
Subject: [PATCH 8/9] fix: print a back-referenced anonymous namespace as such,
 not as its key

---
 src/demangler.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 16ae8fd..2850a24 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1176,8 +1176,9 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     // Two instantiations can be different and still be printed alike (it depends on
-    // the flags, too), but then they are mangled differently.
-    fn memorize_template(
+    // the flags, too), but then they are mangled differently. So can two anonymous
+    // namespaces.
+    fn memorize_mangled(
         &mut self,
         mangled: &'alloc str,
         identifier: NodeHandle<IIdentifierNode>,
@@ -1349,7 +1350,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                 return Err(Error::InvalidTemplateInstantiationName);
             }
             let len = mangled.len() - self.mangled_name.len_bytes();
-            self.memorize_template(&mangled[..len], identifier)?;
+            self.memorize_mangled(&mangled[..len], identifier)?;
         }
 
         Ok(identifier)
@@ -1814,6 +1815,7 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
     }
 
     fn demangle_anonymous_namespace_name(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
+        let mangled = self.mangled_name.as_str();
         self.mangled_name
             .try_consume_str("?A")
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
@@ -1821,18 +1823,19 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
             .mangled_name
             .find_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        let namespace_key = self
-            .mangled_name
+        self.mangled_name
             .try_consume_n_bytes(pos)
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.memorize_string(namespace_key)?;
         self.mangled_name
             .try_consume_char('@')
             .ok_or(Error::InvalidAnonymousNamespaceName)?;
-        self.cache.intern(NamedIdentifierNode {
+        let identifier = self.cache.intern(NamedIdentifierNode {
             name: "`anonymous namespace'",
             ..Default::default()
-        })
+        })?;
+        let len = mangled.len() - self.mangled_name.len_bytes();
+        self.memorize_mangled(&mangled[..len], identifier.into())?;
+        Ok(identifier)
     }
 
     fn demangle_locally_scoped_name_piece(&mut self) -> Result<NodeHandle<NamedIdentifier>> {
-- 
2.43.0


From 9f83598749dca3fee570370e74d4949125084521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 9/9] fix: reject numbers that don't fit in 64 bits instead of
 wrapping around

---
 src/demangler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/demangler.rs b/src/demangler.rs
index 2850a24..0199ac1 100644
--- a/src/demangler.rs
+++ b/src/demangler.rs
@@ -1101,7 +1101,8 @@ impl<'alloc, 'string: 'alloc> Demangler<'alloc, 'string> {
                     // https://github.com/llvm/llvm-project/blob/bafda89a0944d947fc4b3b5663185e07a397ac30/llvm/lib/Demangle/MicrosoftDemangle.cpp#L932-L958
                     '@' => break Ok((number, is_negative)),
                     c if c.is_rebased_ascii_hexdigit() => {
-                        number = number.wrapping_shl(4) + u64::from(c as u8 - b'A');
+                        number = number.checked_mul(16).ok_or(Error::InvalidNumber)?
+                            + u64::from(c as u8 - b'A');
                     }
                     _ => break Err(Error::InvalidNumber),
                 }
-- 
2.43.0

