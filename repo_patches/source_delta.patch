From 1317725b7afbc0ce11cf8cc6dab3b0fa9bc5dca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:00 +0000
Subject: [PATCH 01/93] fix: ignore null values of @list and @graph container
 terms during expansion

---
 crates/expansion/src/node.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 8be89eb..741e6c2 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -925,6 +925,12 @@ where
 					}
 				};
 
+				// If expanded value is null, ignore key by continuing to the
+				// next key from element.
+				if expanded_value.is_null() {
+					continue;
+				}
+
 				// If container mapping includes @list and expanded value is
 				// not already a list object, convert expanded value to a list
 				// object by first setting it to an array containing only
-- 
2.43.0


From dfdb1ce4d60bc5f2ef6253e07e6c14899762647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:02 +0000
Subject: [PATCH 02/93] fix: serialize the `@included` entry of nodes as
 `@included`

---
 crates/core/src/object/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a49dc38..5741335 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -1319,7 +1319,7 @@ impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for Node<
 
 		if let Some(included) = self.included {
 			obj.insert(
-				"@include".into(),
+				"@included".into(),
 				included.into_with(vocabulary).into_json(),
 			);
 		}
-- 
2.43.0


From 5e5f731f743c11b0c10544fdf1a37de842b3cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 03/93] fix: ignore `@context` and undefined terms in value,
 list and set objects

---
 crates/expansion/src/element.rs | 4 ++++
 crates/expansion/src/value.rs   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index a96e6ef..4bb71a9 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -360,6 +360,8 @@ where
 							None => return Err(Error::InvalidIndexValue),
 						},
 						Term::Keyword(Keyword::List) => (),
+						// Local context, and terms with no definition.
+						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -401,6 +403,8 @@ where
 							// but is ignored.
 						}
 						Term::Keyword(Keyword::Set) => (),
+						// Local context, and terms with no definition.
+						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => (),
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 084fe6c..b7e8757 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -154,6 +154,8 @@ where
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
+			// Local context, and terms with no definition.
+			Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => (),
 			_ => {
 				return Err(InvalidValue::ValueObject);
 			}
-- 
2.43.0


From 20c95647f59eeb01d5f33c2b138f25f00f794fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 04/93] fix: process entries in lexicographic order when the
 `ordered` option is set

---
 crates/expansion/src/element.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 4bb71a9..62f5074 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -213,7 +213,9 @@ where
 			}
 
 			let entries: Cow<[Entry]> = if options.ordered {
-				Cow::Owned(element.entries().to_vec())
+				let mut entries = element.entries().to_vec();
+				entries.sort_by(|a, b| a.key.cmp(&b.key));
+				Cow::Owned(entries)
 			} else {
 				Cow::Borrowed(element.entries())
 			};
-- 
2.43.0


From ef6542fa281df488252d81416372500a5aa6c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 05/93] fix: reject colliding keywords in value, list and set
 objects during expansion

---
 crates/expansion/src/element.rs | 18 ++++++++++++++++--
 crates/expansion/src/value.rs   | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 62f5074..55e616e 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -333,6 +333,16 @@ where
 				)?;
 
 				if let Some(expanded_key) = expanded_key {
+					// Two entries expanding to the same keyword.
+					if match &expanded_key {
+						Term::Keyword(Keyword::Value) => value_entry.is_some(),
+						Term::Keyword(Keyword::List) => list_entry.is_some(),
+						Term::Keyword(Keyword::Set) => set_entry.is_some(),
+						_ => false,
+					} {
+						return Err(Error::CollidingKeywords);
+					}
+
 					match &expanded_key {
 						Term::Keyword(Keyword::Value) => value_entry = Some(value.clone()),
 						Term::Keyword(Keyword::List) => {
@@ -363,7 +373,9 @@ where
 						},
 						Term::Keyword(Keyword::List) => (),
 						// Local context, and terms with no definition.
-						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => (),
+						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => {
+							()
+						}
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
@@ -406,7 +418,9 @@ where
 						}
 						Term::Keyword(Keyword::Set) => (),
 						// Local context, and terms with no definition.
-						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => (),
+						Term::Keyword(Keyword::Context) | Term::Null | Term::Id(Id::Invalid(_)) => {
+							()
+						}
 						_ => return Err(Error::InvalidSetOrListObject),
 					}
 				}
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index b7e8757..9ebe4d7 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -32,6 +32,9 @@ pub enum InvalidValue {
 
 	#[error("Forbidden use of `@vocab`")]
 	ForbiddenVocab,
+
+	#[error("Colliding keywords")]
+	CollidingKeywords,
 }
 
 impl InvalidValue {
@@ -45,6 +48,7 @@ impl InvalidValue {
 			Self::ValueObjectValue => ErrorCode::InvalidValueObjectValue,
 			Self::LanguageTaggedValue => ErrorCode::InvalidLanguageTaggedValue,
 			Self::ForbiddenVocab => ErrorCode::InvalidTypeValue,
+			Self::CollidingKeywords => ErrorCode::CollidingKeywords,
 		}
 	}
 }
@@ -81,7 +85,18 @@ where
 	let mut language = None;
 	let mut direction = None;
 
+	let mut keywords = Vec::new();
+
 	for ExpandedEntry(_, expanded_key, value) in expanded_entries {
+		// If two entries expand to the same keyword (other than `@type`), a
+		// colliding keywords error has been detected and processing is aborted.
+		if let Term::Keyword(keyword) = &expanded_key {
+			if *keyword != Keyword::Type && keywords.contains(keyword) {
+				return Err(InvalidValue::CollidingKeywords);
+			}
+			keywords.push(*keyword);
+		}
+
 		match expanded_key {
 			// If expanded property is @language:
 			Term::Keyword(Keyword::Language) => {
-- 
2.43.0


From 20bdbf61e0712adf67de15743268ef0450b29d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 06/93] fix: expand the entries of @reverse maps with the
 regular algorithm

Null values created empty entries, values and lists were accepted below doubly reversed
terms, container mappings were ignored, and whether a reverse property collides with the
@reverse entry depended on their order.
---
 crates/expansion/src/node.rs | 136 +++++++++++++----------------------
 1 file changed, 50 insertions(+), 86 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 741e6c2..cc7b4b6 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -110,7 +110,7 @@ async fn expand_node_entries<'a, N, L, W>(
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	type_scoped_context: &'a Context<N::Iri, N::BlankId>,
 	active_property: ActiveProperty<'a>,
-	expanded_entries: Vec<ExpandedEntry<'a, N::Iri, N::BlankId>>,
+	mut expanded_entries: Vec<ExpandedEntry<'a, N::Iri, N::BlankId>>,
 	base_url: Option<&'a N::Iri>,
 	options: Options,
 ) -> NodeEntriesExpensionResult<N::Iri, N::BlankId>
@@ -121,6 +121,11 @@ where
 	L: Loader,
 	W: WarningHandler<N>,
 {
+	// Process the `@reverse` entries first, so that a reverse property is not
+	// mistaken for another `@reverse` entry.
+	expanded_entries
+		.sort_by_key(|ExpandedEntry(_, key, _)| *key != Term::Keyword(Keyword::Reverse));
+
 	// For each `key` and `value` in `element`, ordered lexicographically by key
 	// if `ordered` is `true`:
 	for ExpandedEntry(key, expanded_key, value) in expanded_entries {
@@ -311,102 +316,61 @@ where
 								reverse_entries.sort_by_key(|entry| &entry.key)
 							}
 
-							for Entry {
-								key: reverse_key,
-								value: reverse_value,
-							} in reverse_entries
-							{
+							let mut reverse_expanded_entries =
+								Vec::with_capacity(reverse_entries.len());
+							for Entry { key, value } in reverse_entries {
 								match expand_iri(
 									&mut env,
 									active_context,
-									Nullable::Some(reverse_key.as_str().into()),
+									Nullable::Some(key.as_str().into()),
 									false,
 									Some(options.policy.vocab),
 								)? {
 									Some(Term::Keyword(_)) => {
 										return Err(Error::InvalidReversePropertyMap)
 									}
-									Some(Term::Id(reverse_prop))
-										if reverse_prop
-											.with(&*env.vocabulary)
-											.as_str()
-											.contains(':') =>
-									{
-										if !reverse_prop.is_valid() {
-											match options.policy.invalid {
-												Action::Keep => (),
-												Action::Drop => continue,
-												Action::Reject => {
-													return Err(Error::KeyExpansionFailed(
-														reverse_key.to_string(),
-													))
-												}
-											}
-										}
-
-										let reverse_expanded_value = Box::pin(expand_element(
-											Environment {
-												vocabulary: env.vocabulary,
-												loader: env.loader,
-												warnings: env.warnings,
-											},
-											active_context,
-											ActiveProperty::Some(reverse_key.as_ref()),
-											reverse_value,
-											base_url,
-											options,
-											false,
-										))
-										.await?;
-
-										let is_double_reversed =
-											if let Some(reverse_key_definition) =
-												active_context.get(reverse_key.as_str())
-											{
-												reverse_key_definition.reverse_property()
-											} else {
-												false
-											};
-
-										if is_double_reversed {
-											result.insert_all(
-												reverse_prop,
-												reverse_expanded_value.into_iter(),
-											)
-										} else {
-											let mut reverse_expanded_nodes = Vec::new();
-											for object in reverse_expanded_value {
-												match object.try_cast::<Node<N::Iri, N::BlankId>>()
-												{
-													Ok(node) => reverse_expanded_nodes.push(node),
-													Err(_) => {
-														return Err(
-															Error::InvalidReversePropertyValue,
-														)
-													}
-												}
-											}
-
-											result.reverse_properties_or_default().insert_all(
-												reverse_prop,
-												reverse_expanded_nodes.into_iter(),
-											)
-										}
-									}
-									_ => {
-										if options.policy.invalid.is_reject() {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
+									Some(expanded_key) => reverse_expanded_entries
+										.push(ExpandedEntry(key, expanded_key, value)),
+									None => (),
+								}
+							}
 
-										if !options.policy.allow_undefined {
-											return Err(Error::KeyExpansionFailed(
-												reverse_key.to_string(),
-											));
-										}
+							// Expand the entries of the map like the entries of a node.
+							let (reverse_result, _) = Box::pin(expand_node_entries(
+								Environment {
+									vocabulary: env.vocabulary,
+									loader: env.loader,
+									warnings: env.warnings,
+								},
+								Indexed::new(Node::new(), None),
+								false,
+								active_context,
+								type_scoped_context,
+								ActiveProperty::Some("@reverse"),
+								reverse_expanded_entries,
+								base_url,
+								options,
+							))
+							.await?;
+							let reverse_node = reverse_result.into_inner();
+
+							// Entries that are double-reversed.
+							if let Some(properties) = reverse_node.reverse_properties {
+								for (prop, nodes) in properties {
+									result.insert_all(
+										prop,
+										nodes.into_iter().map(|n| n.map_inner(Object::node)),
+									)
+								}
+							}
 
-										// otherwise the key is just dropped.
+							for (prop, objects) in reverse_node.properties {
+								for object in objects {
+									match object.try_cast::<Node<N::Iri, N::BlankId>>() {
+										Ok(node) => result
+											.reverse_properties_or_default()
+											.insert(prop.clone(), node),
+										Err(_) => return Err(Error::InvalidReversePropertyValue),
 									}
 								}
 							}
-- 
2.43.0


From 88ec69c649d8952e50455d449e9499614aa50df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 07/93] fix: combine @graph, @set and @index into an index
 container

---
 crates/core/src/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/container.rs b/crates/core/src/container.rs
index a604816..07b0fac 100644
--- a/crates/core/src/container.rs
+++ b/crates/core/src/container.rs
@@ -140,7 +140,7 @@ impl Container {
 			(Container::GraphSet, ContainerKind::Graph) => *self,
 			(Container::GraphSet, ContainerKind::Set) => *self,
 			(Container::GraphSet, ContainerKind::Id) => Container::GraphIdSet,
-			(Container::GraphSet, ContainerKind::Index) => Container::GraphIdSet,
+			(Container::GraphSet, ContainerKind::Index) => Container::GraphIndexSet,
 			(Container::GraphId, ContainerKind::Graph) => *self,
 			(Container::GraphId, ContainerKind::Id) => *self,
 			(Container::GraphId, ContainerKind::Set) => Container::GraphIdSet,
-- 
2.43.0


From 2e3b1a5c8f4dd7030859681a9448c6e9fc51c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:19 +0000
Subject: [PATCH 08/93] fix: reject the redefinition of keywords and ignore
 keyword-like terms

---
 .../src/algorithm/define.rs                   | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 13125f0..75916b4 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -10,7 +10,7 @@ use json_ld_syntax::{
 		definition::{EntryValueRef, KeyOrKeyword, KeyOrKeywordRef},
 		term_definition::{self, IdRef},
 	},
-	CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
+	is_keyword_like, CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
 };
 use rdf_types::{BlankId, VocabularyMut};
 use std::{collections::HashMap, hash::Hash};
@@ -104,13 +104,29 @@ where
 {
 	let term = term.to_owned();
 	if defined.begin(&term)? {
-		if term.is_empty() {
-			return Err(Error::InvalidTermDefinition);
-		}
-
 		// Initialize `value` to a copy of the value associated with the entry `term` in
 		// `local_context`.
 		if let Some(value) = local_context.get(&term) {
+			if term.is_empty() {
+				return Err(Error::InvalidTermDefinition);
+			}
+
+			// Other keywords than `@type` cannot be redefined, and terms that have the form
+			// of a keyword are ignored.
+			if let KeyOrKeyword::Key(key) = &term {
+				if Keyword::try_from(key.as_str()).is_ok() {
+					return Err(Error::KeywordRedefinition);
+				}
+
+				if is_keyword_like(key.as_str()) {
+					env.warnings.handle(
+						env.vocabulary,
+						Warning::KeywordLikeTerm(key.to_string()),
+					);
+					return Ok(());
+				}
+			}
+
 			// Set the value associated with defined's term entry to false.
 			// This indicates that the term definition is now being created but is not yet
 			// complete.
-- 
2.43.0


From b01e051863d891c1fb0dfa95451d97fa4600a260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:20 +0000
Subject: [PATCH 09/93] fix: do not panic on terms without IRI mapping

---
 crates/context-processing/src/algorithm/define.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 75916b4..dcf5701 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -379,6 +379,11 @@ where
 											// been detected and processing is aborted.
 											return Err(Error::InvalidKeywordAlias);
 										}
+										None => {
+											// The `@id` entry expands to `null`: the resulting IRI
+											// mapping is not valid.
+											return Err(Error::InvalidIriMapping);
+										}
 										Some(Term::Id(prop)) if !prop.is_valid() => {
 											// If the resulting IRI mapping is neither a keyword,
 											// nor an IRI, nor a blank node identifier, an
@@ -753,7 +758,9 @@ where
 						// If the `prefix` flag of `definition` is set to `true`, and its IRI
 						// mapping is a keyword, an invalid term definition has been detected and
 						// processing is aborted.
-						if definition.prefix && definition.value.as_ref().unwrap().is_keyword() {
+						if definition.prefix
+							&& definition.value.as_ref().is_some_and(Term::is_keyword)
+						{
 							return Err(Error::InvalidTermDefinition);
 						}
 					}
-- 
2.43.0


From 70e085b6ddb44d489d998cb7e74198d25adb3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:22 +0000
Subject: [PATCH 10/93] fix: report invalid remote contexts with the error code
 of the specification

---
 crates/context-processing/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/context-processing/src/lib.rs b/crates/context-processing/src/lib.rs
index 9a0bdb2..9f357ad 100644
--- a/crates/context-processing/src/lib.rs
+++ b/crates/context-processing/src/lib.rs
@@ -139,7 +139,10 @@ impl Error {
 			Self::InvalidScopedContext => ErrorCode::InvalidScopedContext,
 			Self::ProtectedTermRedefinition => ErrorCode::ProtectedTermRedefinition,
 			Self::ContextLoadingFailed(_) => ErrorCode::LoadingRemoteContextFailed,
-			Self::ContextExtractionFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(e) => match e {
+				json_ld_core::ExtractContextError::Syntax(e) => e.code(),
+				_ => ErrorCode::InvalidRemoteContext,
+			},
 			Self::ForbiddenVocab => ErrorCode::InvalidVocabMapping,
 		}
 	}
-- 
2.43.0


From d7139505cc2da3097513b626295df87f9d59643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 11/93] fix: resolve the references of a remote context against
 its document URL

---
 crates/context-processing/src/algorithm/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index caaa5ed..2d40b31 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -166,10 +166,14 @@ where
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
 				if remote_contexts.push(context_iri.clone()) {
-					let loaded_context = env
+					let context_document = env
 						.loader
 						.load_with(env.vocabulary, context_iri.clone())
-						.await?
+						.await?;
+
+					let document_url = context_document.url().cloned().unwrap_or(context_iri);
+
+					let loaded_context = context_document
 						.into_document()
 						.into_ld_context()
 						.map_err(Error::ContextExtractionFailed)?;
@@ -193,7 +197,7 @@ where
 						&result,
 						&loaded_context,
 						remote_contexts.clone(),
-						Some(context_iri),
+						Some(document_url),
 						new_options,
 					))
 					.await?;
-- 
2.43.0


From 3fa7d398be84f0d145c92824953bb9bd7786d6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:37 +0000
Subject: [PATCH 12/93] fix: reject vocabulary mappings that are neither IRIs
 nor blank node identifiers

---
 crates/context-processing/src/algorithm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 2d40b31..260cc88 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -320,7 +320,7 @@ where
 								true,
 								Some(options.vocab),
 							)? {
-								Some(Term::Id(vocab)) => {
+								Some(Term::Id(vocab)) if vocab.is_valid() => {
 									result.set_vocabulary(Some(Term::Id(vocab)))
 								}
 								_ => return Err(Error::InvalidVocabMapping),
-- 
2.43.0


From 7e3f1708f7bfeaa999a1c6c550a6cd2ea28cdeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:36 +0000
Subject: [PATCH 13/93] fix: look for a colon anywhere inside of a term, not
 only between its first and last colons

---
 crates/context-processing/src/algorithm/define.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index dcf5701..4900ef6 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -39,12 +39,8 @@ fn is_gen_delim_or_blank<T, B>(
 
 /// Checks if the the given character is included in the given string anywhere but at the first or last position.
 fn contains_between_boundaries(id: &str, c: char) -> bool {
-	if let Some(i) = id.find(c) {
-		let j = id.rfind(c).unwrap();
-		i > 0 && j < id.len() - 1
-	} else {
-		false
-	}
+	id.char_indices()
+		.any(|(i, d)| d == c && i > 0 && i + c.len_utf8() < id.len())
 }
 
 #[derive(Default)]
-- 
2.43.0


From 391b6dbd303a550b9cc433c4be3c5a65239a4260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 14/93] fix: refuse JSON literals and ignore directions in
 processing mode json-ld-1.0

---
 crates/expansion/src/element.rs |  1 +
 crates/expansion/src/value.rs   | 13 +++++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/expansion/src/element.rs b/crates/expansion/src/element.rs
index 55e616e..d9652de 100644
--- a/crates/expansion/src/element.rs
+++ b/crates/expansion/src/element.rs
@@ -442,6 +442,7 @@ where
 				// Value objects.
 				let expanded_value = expand_value(
 					&mut env,
+					options.processing_mode,
 					options.policy.vocab,
 					input_type,
 					type_scoped_context,
diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 9ebe4d7..79cf735 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -2,7 +2,7 @@ use crate::{expand_iri, Action, ExpandedEntry, Warning, WarningHandler};
 use json_ld_context_processing::algorithm::RejectVocab;
 use json_ld_core::{
 	object::value::Literal, Context, Environment, Id, Indexed, IndexedObject, LangString, Object,
-	Term, ValidId, Value,
+	ProcessingMode, Term, ValidId, Value,
 };
 use json_ld_syntax::{Direction, ErrorCode, Keyword, LenientLangTagBuf, Nullable};
 use rdf_types::VocabularyMut;
@@ -64,6 +64,7 @@ pub type ValueExpansionResult<T, B> = Result<Option<IndexedObject<T, B>>, Invali
 /// Expand a value object.
 pub(crate) fn expand_value<N, L, W>(
 	env: &mut Environment<N, L, W>,
+	processing_mode: ProcessingMode,
 	vocab_policy: Action,
 	input_type: Option<Term<N::Iri, N::BlankId>>,
 	type_scoped_context: &Context<N::Iri, N::BlankId>,
@@ -119,7 +120,9 @@ where
 			Term::Keyword(Keyword::Direction) => {
 				// If processing mode is json-ld-1.0, continue with the next key
 				// from element.
-				// TODO processing mode.
+				if processing_mode == ProcessingMode::JsonLd1_0 {
+					continue;
+				}
 
 				// If value is neither "ltr" nor "rtl", an invalid base direction
 				// error has been detected and processing is aborted.
@@ -181,6 +184,12 @@ where
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
 	if is_json {
+		// If processing mode is json-ld-1.0, an invalid value object value error
+		// has been detected and processing is aborted.
+		if processing_mode == ProcessingMode::JsonLd1_0 {
+			return Err(InvalidValue::ValueObjectValue);
+		}
+
 		if language.is_some() || direction.is_some() {
 			return Err(InvalidValue::ValueObject);
 		}
-- 
2.43.0


From c39c3af7ee84d798906e3e8b97fa3142c38ee97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:36 +0000
Subject: [PATCH 15/93] fix: select the shortest compact IRI

---
 crates/compaction/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index 4656858..c4afff3 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -446,7 +446,8 @@ where
 						// and value is null, set compact IRI to candidate.
 						let candidate_def = active_context.get(candidate.as_str());
 						if (compact_iri.is_empty()
-							|| (candidate.len() <= compact_iri.len() && candidate < compact_iri))
+							|| candidate.len() < compact_iri.len()
+							|| (candidate.len() == compact_iri.len() && candidate < compact_iri))
 							&& (candidate_def.is_none()
 								|| (candidate_def.is_some()
 									&& (candidate_def.and_then(|def| def.value()) == Some(var))
-- 
2.43.0


From 3c74c54132b42e5f59ad8773ead0ecfb0cd71cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:37 +0000
Subject: [PATCH 16/93] fix: only confuse IRIs without authority with prefixes

---
 crates/compaction/src/iri.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index c4afff3..edc9c6e 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -473,7 +473,10 @@ where
 	// an IRI confused with prefix error has been detected, and processing is aborted.
 	if let Some(iri) = var.as_iri() {
 		let iri = vocabulary.iri(iri).unwrap();
-		if active_context.contains_term(iri.scheme().as_str()) {
+		let prefix = active_context
+			.get(iri.scheme().as_str())
+			.is_some_and(|def| def.prefix());
+		if prefix && iri.authority().is_none() {
 			return Err(IriConfusedWithPrefix);
 		}
 	}
-- 
2.43.0


From 651f108f2d5c97a0fca21cf7c9a96945696b98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:38 +0000
Subject: [PATCH 17/93] fix: keep the language and direction of values that do
 not have the default ones

---
 crates/compaction/src/value.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index ee7984d..f6da91e 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,10 +190,9 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
-			&& (ls_language.is_none() || language == ls_language) // || (ls.language().is_none() && language.is_none()))
-			&& (ls_direction.is_none() || direction == ls_direction)
+				&& language == ls_language
+				&& direction == ls_direction
 			{
-				// || (ls.direction().is_none() && direction.is_none())) {
 				return Ok(json_syntax::Value::String(ls.as_str().into()));
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From c818ee0d3235bf6d1cd7d60b61116c2eed577b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:41 +0000
Subject: [PATCH 18/93] fix: do not compact the values of terms of type @none

---
 crates/compaction/src/value.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index f6da91e..e5c5b7b 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -190,6 +190,7 @@ where
 			let ls_direction = ls.direction(); //.map(|d| Nullable::Some(d));
 
 			if remove_index
+				&& type_mapping != Some(Type::None)
 				&& language == ls_language
 				&& direction == ls_direction
 			{
-- 
2.43.0


From 414d3139b3d2b794bb6ed0a86155dcc947b31022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 19/93] fix: use the alias of @id in compacted graph objects

---
 crates/compaction/src/property.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index ba72110..8f5fe84 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -259,7 +259,7 @@ where
 				vocabulary,
 				active_context,
 				&Term::Keyword(Keyword::Id),
-				false,
+				true,
 				false,
 				options,
 			)?
-- 
2.43.0


From 159f89e6251a6c80d9bb73de0f16ca68ab03a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 20/93] fix: do not select language-less list terms for typed
 items

---
 crates/compaction/src/iri.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index edc9c6e..d3a6854 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -148,7 +148,10 @@ where
 						} else {
 							for item in list {
 								let mut item_type = None;
-								let mut item_lang_dir = None;
+								// No language and no direction (`@none`), which is
+								// different from the explicit absence of them
+								// (`@null`).
+								let mut item_lang_dir = Nullable::Some((None, None));
 								let mut is_value = false;
 
 								match item.inner() {
@@ -156,16 +159,16 @@ where
 										is_value = true;
 										match value {
 											Value::LangString(lang_str) => {
-												item_lang_dir = Some(Nullable::Some((
+												item_lang_dir = Nullable::Some((
 													lang_str.language(),
 													lang_str.direction(),
-												)))
+												))
 											}
 											Value::Literal(_, Some(ty)) => {
 												item_type = Some(Type::Iri(ty.clone()))
 											}
 											Value::Literal(_, None) => {
-												item_lang_dir = Some(Nullable::Null)
+												item_lang_dir = Nullable::Null
 											}
 											Value::Json(_) => item_type = Some(Type::Json),
 										}
@@ -173,10 +176,12 @@ where
 									_ => item_type = Some(Type::Id),
 								}
 
-								if common_lang_dir.is_none() {
-									common_lang_dir = item_lang_dir
-								} else if is_value && common_lang_dir != item_lang_dir {
-									common_lang_dir = Some(Nullable::Some((None, None)))
+								match common_lang_dir {
+									None => common_lang_dir = Some(item_lang_dir),
+									Some(common) if is_value && common != item_lang_dir => {
+										common_lang_dir = Some(Nullable::Some((None, None)))
+									}
+									Some(_) => (),
 								}
 
 								if common_type.is_none() {
-- 
2.43.0


From 41b354e31385d39132a1e81ffdc0feb0afadf81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:25 +0000
Subject: [PATCH 21/93] fix: recognize the alias of @id in type maps

---
 crates/compaction/src/property.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 8f5fe84..3e6fd32 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -701,7 +701,19 @@ where
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
 							if let Some(map) = compacted_item.as_object() {
-								if map.len() == 1 && map.get_unique("@id").ok().unwrap().is_some() {
+								let id_key = compact_iri(
+									vocabulary,
+									active_context,
+									&Term::Keyword(Keyword::Id),
+									true,
+									false,
+									options,
+								)?
+								.unwrap();
+
+								if map.len() == 1
+									&& map.get_unique(id_key.as_str()).ok().unwrap().is_some()
+								{
 									let obj = Object::node(Node::with_id(
 										expanded_item.id().unwrap().clone(),
 									));
-- 
2.43.0


From 17e5c4ec2431f4792c066da665c76e8568caa80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 22/93] fix: find property-valued indexes when compacting

---
 crates/compaction/src/property.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 3e6fd32..96fda23 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -3,12 +3,16 @@ use crate::{
 	CompactFragment, CompactIndexedFragment, Error, Options,
 };
 
+use json_ld_context_processing::{
+	algorithm::{expand_iri_simple, Action},
+	Warning,
+};
 use json_ld_core::{
 	context::Nest,
 	object::{self, List},
-	Container, ContainerKind, Context, Id, Indexed, Loader, Node, Object, Term,
+	Container, ContainerKind, Context, Environment, Id, Indexed, Loader, Node, Object, Term,
 };
-use json_ld_syntax::Keyword;
+use json_ld_syntax::{ExpandableRef, Keyword, Nullable};
 use rdf_types::VocabularyMut;
 use std::hash::Hash;
 
@@ -557,10 +561,26 @@ where
 
 									// Reinitialize `container_key` by
 									// IRI compacting `index_key`.
+									let index_property = expand_iri_simple::<Warning, _, _, _>(
+										&mut Environment {
+											vocabulary,
+											loader,
+											warnings: &mut (),
+										},
+										active_context,
+										Nullable::Some(ExpandableRef::String(index_key.as_str())),
+										false,
+										Some(Action::Keep),
+									)
+									.ok()
+									.flatten()
+									.unwrap_or_else(|| {
+										Term::Id(Id::Invalid(index_key.to_string()))
+									});
 									container_key = compact_iri(
 										vocabulary,
 										active_context,
-										&Term::Id(Id::Invalid(index_key.to_string())),
+										&index_property,
 										true,
 										false,
 										options,
-- 
2.43.0


From 1bf8c67360d4d8c7771dba68109acce823020b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 23/93] fix: keep the values that cannot be used as map keys

---
 crates/compaction/src/property.rs | 132 ++++++++----------------------
 1 file changed, 34 insertions(+), 98 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 96fda23..82b9325 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -385,6 +385,32 @@ where
 	Ok((nest_result, container, as_array))
 }
 
+/// Takes the first value of the given `key` in `item` to be used as a map key,
+/// leaving the remaining values.
+///
+/// Returns `None` and leaves `item` as it is if the first value is not a
+/// string.
+fn take_map_key(item: &mut json_syntax::Value, key: &str) -> Option<String> {
+	let map = item.as_object_mut()?;
+
+	let map_key = match map.get_unique(key).ok().unwrap()? {
+		json_syntax::Value::String(s) => s.to_string(),
+		json_syntax::Value::Array(values) => values.first()?.as_str()?.to_owned(),
+		_ => return None,
+	};
+
+	// If there are remaining values in `item` for `key`, use `add_value` to
+	// add those remaining values. Otherwise, remove that entry.
+	let entry = map.remove_unique(key).ok().unwrap().unwrap();
+	if let json_syntax::Value::Array(values) = entry.value {
+		for value in values.into_iter().skip(1) {
+			add_value(map, key, value, false)
+		}
+	}
+
+	Some(map_key)
+}
+
 /// Compact the given property into the `result` compacted object.
 #[allow(clippy::too_many_arguments)]
 pub async fn compact_property<'a, N, L, O, T>(
@@ -588,58 +614,10 @@ where
 
 									// Set `map_key` to the first value of
 									// `container_key` in `compacted_item`, if any.
-									let (map_key, remaining_values) = match &mut compacted_item {
-										json_syntax::Value::Object(map) => {
-											match map
-												.remove_unique(
-													container_key.as_ref().unwrap().as_str(),
-												)
-												.ok()
-												.unwrap()
-											{
-												Some(entry) => match entry.value {
-													json_syntax::Value::String(s) => {
-														(Some(s.to_string()), Vec::new())
-													}
-													json_syntax::Value::Array(values) => {
-														let mut values = values.into_iter();
-														match values.next() {
-															Some(first_value) => (
-																first_value
-																	.as_str()
-																	.map(|v| v.to_string()),
-																values.collect(),
-															),
-															None => (None, values.collect()),
-														}
-													}
-													other => (None, vec![other]),
-												},
-												None => (None, Vec::new()),
-											}
-										}
-										_ => (None, Vec::new()),
-									};
-
-									// If there are remaining values in `compacted_item`
-									// for container key, use `add_value` to add
-									// those remaining values to the `container_key`
-									// in `compacted_item`.
-									// Otherwise, remove that entry from compacted item.
-									if !remaining_values.is_empty() {
-										if let Some(map) = compacted_item.as_object_mut() {
-											for value in remaining_values {
-												add_value(
-													map,
-													container_key.as_deref().unwrap(),
-													value,
-													false,
-												)
-											}
-										}
-									}
-
-									map_key
+									take_map_key(
+										&mut compacted_item,
+										container_key.as_deref().unwrap(),
+									)
 								}
 								None => {
 									// Otherwise, if `container` includes @index and
@@ -667,52 +645,10 @@ where
 
 							// Set `map_key` to the first value of `container_key` in
 							// `compacted_item`, if any.
-							let (map_key, remaining_values) = match compacted_item.as_object_mut() {
-								Some(map) => {
-									match map
-										.remove_unique(container_key.as_ref().unwrap().as_str())
-										.ok()
-										.unwrap()
-									{
-										Some(entry) => match entry.value {
-											json_syntax::Value::String(s) => {
-												(Some((*s).to_string()), Vec::new())
-											}
-											json_syntax::Value::Array(values) => {
-												let mut values = values.into_iter();
-												match values.next() {
-													Some(first_value) => (
-														first_value.as_str().map(ToOwned::to_owned),
-														values.collect(),
-													),
-													None => (None, values.collect()),
-												}
-											}
-											other => (None, vec![other]),
-										},
-										None => (None, Vec::new()),
-									}
-								}
-								_ => (None, Vec::new()),
-							};
-
-							// If there are remaining values in `compacted_item` for
-							// `container_key`, use `add_value` to add those
-							// remaining values to the `container_key` in
-							// `compacted_item`.
-							// Otherwise, remove that entry from compacted item.
-							if !remaining_values.is_empty() {
-								if let Some(map) = compacted_item.as_object_mut() {
-									for value in remaining_values {
-										add_value(
-											map,
-											container_key.as_deref().unwrap(),
-											value,
-											false,
-										)
-									}
-								}
-							}
+							let map_key = take_map_key(
+								&mut compacted_item,
+								container_key.as_deref().unwrap(),
+							);
 
 							// If `compacted_item` contains a single entry with a key
 							// expanding to @id, set `compacted_item` to the result of
-- 
2.43.0


From 03a77848e835c5b7c624f67edaa42cca6feb188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:45 +0000
Subject: [PATCH 24/93] fix: do not panic on properties mixing maps and other
 values

---
 crates/compaction/src/property.rs | 83 +++++++++++--------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index 82b9325..f1a062a 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -136,24 +136,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_object_mut(nest_result, item_active_property);
 
 		// Initialize `map_key` by IRI compacting the value of @id in
 		// `expanded_item` or @none if no such value exists
@@ -177,24 +160,7 @@ where
 		// Initialize `map_object` to the value of `item_active_property`
 		// in `nest_result`, initializing it to a new empty map,
 		// if necessary.
-		if nest_result
-			.get_unique(item_active_property)
-			.ok()
-			.unwrap()
-			.is_none()
-		{
-			nest_result.insert(
-				item_active_property.into(),
-				json_ld_syntax::Object::default().into(),
-			);
-		}
-
-		let map_object = nest_result
-			.get_unique_mut(item_active_property)
-			.ok()
-			.unwrap()
-			.unwrap();
-		let map_object = map_object.as_object_mut().unwrap();
+		let map_object = map_object_mut(nest_result, item_active_property);
 
 		// Initialize `map_key` the value of @index in `expanded_item`
 		// or @none, if no such value exists.
@@ -385,6 +351,32 @@ where
 	Ok((nest_result, container, as_array))
 }
 
+/// Returns the map object stored in the `key` entry of `result`.
+///
+/// The entry is created if necessary. If it already contains values that are
+/// not in a map, the map object is added to those values.
+fn map_object_mut<'a>(
+	result: &'a mut json_syntax::Object,
+	key: &str,
+) -> &'a mut json_syntax::Object {
+	let is_map = result
+		.get_unique(key)
+		.ok()
+		.unwrap()
+		.is_some_and(json_syntax::Value::is_object);
+
+	if !is_map {
+		add_value(result, key, json_syntax::Object::default().into(), false);
+	}
+
+	match result.get_unique_mut(key).ok().unwrap().unwrap() {
+		json_syntax::Value::Array(values) => values.last_mut().unwrap(),
+		value => value,
+	}
+	.as_object_mut()
+	.unwrap()
+}
+
 /// Takes the first value of the given `key` in `item` to be used as a map key,
 /// leaving the remaining values.
 ///
@@ -518,24 +510,7 @@ where
 						// Initialize `map_object` to the value of
 						// `item_active_property` in `nest_result`,
 						// initializing it to a new empty map, if necessary.
-						if nest_result
-							.get_unique(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.is_none()
-						{
-							nest_result.insert(
-								item_active_property.clone().into(),
-								json_syntax::Object::default().into(),
-							);
-						}
-
-						let map_object = nest_result
-							.get_unique_mut(item_active_property.as_str())
-							.ok()
-							.unwrap()
-							.unwrap();
-						let map_object = map_object.as_object_mut().unwrap();
+						let map_object = map_object_mut(nest_result, &item_active_property);
 
 						// Initialize container key by IRI compacting either
 						// @language, @index, @id, or @type based on the contents of container.
-- 
2.43.0


From 0908c4b2f2bb0aa1893ecb3e2d2dddae22a0dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:42 +0000
Subject: [PATCH 25/93] fix: expand the index mapping of terms with the local
 context

---
 .../context-processing/src/algorithm/define.rs   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 4900ef6..4786afe 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -651,13 +651,23 @@ where
 						// which MUST be a string expanding to an IRI.
 						// Otherwise, an invalid term definition has been detected and processing
 						// is aborted.
-						match expand_iri_simple(
-							&mut env,
+						match expand_iri_with(
+							Environment {
+								vocabulary: env.vocabulary,
+								loader: env.loader,
+								warnings: env.warnings,
+							},
 							active_context,
 							Nullable::Some(index_value.as_str().into()),
 							false,
 							Some(options.vocab),
-						)? {
+							local_context,
+							defined,
+							remote_contexts.clone(),
+							options,
+						)
+						.await?
+						{
 							Some(Term::Id(Id::Valid(ValidId::Iri(_)))) => (),
 							_ => return Err(Error::InvalidTermDefinition),
 						}
-- 
2.43.0


From 387e4040052396f233d9052e761651f55e041812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:54 +0000
Subject: [PATCH 26/93] fix: apply the protection of the context to the
 definition of @type

---
 crates/context-processing/src/algorithm/define.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 4786afe..947bf92 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -147,7 +147,7 @@ where
 					// Checked during parsing.
 					let mut definition = TypeTermDefinition {
 						container: d.container,
-						..Default::default()
+						protected,
 					};
 
 					if let Some(protected) = d.protected {
-- 
2.43.0


From fbb672ab5b08d04423e2b939380713164544bec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:58 +0000
Subject: [PATCH 27/93] fix: accept definitions of @type without @container

---
 crates/core/src/context/definition.rs         | 17 ++++-------------
 crates/syntax/src/context/definition/type_.rs | 13 ++++++++++---
 crates/syntax/src/context/try_from_json.rs    | 13 +++++++------
 crates/syntax/src/into_json.rs                |  4 +++-
 4 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/crates/core/src/context/definition.rs b/crates/core/src/context/definition.rs
index 69ab0cc..0d1492e 100644
--- a/crates/core/src/context/definition.rs
+++ b/crates/core/src/context/definition.rs
@@ -277,24 +277,15 @@ impl<T, B> IntoIterator for Definitions<T, B> {
 ///
 /// Such definition compared to a [`NormalTermDefinition`] can only contain
 /// a `@container` and `@protected` value.
-#[derive(PartialEq, Eq, Clone)]
+#[derive(PartialEq, Eq, Clone, Default)]
 pub struct TypeTermDefinition {
 	/// Type container.
-	pub container: TypeContainer,
+	pub container: Option<TypeContainer>,
 
 	/// Protection flag.
 	pub protected: bool,
 }
 
-impl Default for TypeTermDefinition {
-	fn default() -> Self {
-		Self {
-			container: TypeContainer::Set,
-			protected: false,
-		}
-	}
-}
-
 impl TypeTermDefinition {
 	pub fn modulo_protected_field(&self) -> ModuloProtected<&Self> {
 		ModuloProtected(self)
@@ -374,7 +365,7 @@ impl<T, B> TermDefinition<T, B> {
 
 	pub fn container(&self) -> Container {
 		match self {
-			Self::Type(d) => d.container.into(),
+			Self::Type(d) => d.container.map(Into::into).unwrap_or_default(),
 			Self::Normal(d) => d.container,
 		}
 	}
@@ -474,7 +465,7 @@ impl<'a, T, B> TermDefinitionRef<'a, T, B> {
 
 	pub fn container(&self) -> Container {
 		match self {
-			Self::Type(d) => d.container.into(),
+			Self::Type(d) => d.container.map(Into::into).unwrap_or_default(),
 			Self::Normal(d) => d.container,
 		}
 	}
diff --git a/crates/syntax/src/context/definition/type_.rs b/crates/syntax/src/context/definition/type_.rs
index 4edf300..62278dd 100644
--- a/crates/syntax/src/context/definition/type_.rs
+++ b/crates/syntax/src/context/definition/type_.rs
@@ -3,8 +3,15 @@ use std::{hash::Hash, str::FromStr};
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
 pub struct Type {
-	#[cfg_attr(feature = "serde", serde(rename = "@container"))]
-	pub container: TypeContainer,
+	#[cfg_attr(
+		feature = "serde",
+		serde(
+			rename = "@container",
+			default,
+			skip_serializing_if = "Option::is_none"
+		)
+	)]
+	pub container: Option<TypeContainer>,
 
 	#[cfg_attr(feature = "serde", serde(rename = "@protected"))]
 	pub protected: Option<bool>,
@@ -13,7 +20,7 @@ pub struct Type {
 impl Type {
 	pub fn iter(&self) -> ContextTypeEntries {
 		ContextTypeEntries {
-			container: Some(self.container),
+			container: self.container,
 			protected: self.protected,
 		}
 	}
diff --git a/crates/syntax/src/context/try_from_json.rs b/crates/syntax/src/context/try_from_json.rs
index d4a391c..25d5c07 100644
--- a/crates/syntax/src/context/try_from_json.rs
+++ b/crates/syntax/src/context/try_from_json.rs
@@ -166,13 +166,14 @@ impl TryFromJson for definition::Type {
 					}
 				}
 
-				match container {
-					Some(container) => Ok(Self {
-						container,
-						protected,
-					}),
-					None => Err(InvalidContext::InvalidTermDefinition),
+				if container.is_none() && protected.is_none() {
+					return Err(InvalidContext::InvalidTermDefinition);
 				}
+
+				Ok(Self {
+					container,
+					protected,
+				})
 			}
 			unexpected => Err(InvalidContext::Unexpected(
 				unexpected.kind(),
diff --git a/crates/syntax/src/into_json.rs b/crates/syntax/src/into_json.rs
index 57d5988..45e8050 100644
--- a/crates/syntax/src/into_json.rs
+++ b/crates/syntax/src/into_json.rs
@@ -106,7 +106,9 @@ impl IntoJson for context::definition::Type {
 	fn into_json(self) -> json_syntax::Value {
 		let mut object = json_syntax::Object::new();
 
-		object.insert("@container".into(), self.container.into_json());
+		if let Some(container) = self.container {
+			object.insert("@container".into(), container.into_json());
+		}
 
 		if let Some(protected) = self.protected {
 			object.insert("@protected".into(), protected.into_json());
-- 
2.43.0


From d028c7d14c5ba547c63f1e0c4b2409a0d02e9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:33 +0000
Subject: [PATCH 28/93] fix: compact indexed JSON literals under JSON terms to
 their value

---
 crates/compaction/src/value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/compaction/src/value.rs b/crates/compaction/src/value.rs
index e5c5b7b..e17310d 100644
--- a/crates/compaction/src/value.rs
+++ b/crates/compaction/src/value.rs
@@ -241,7 +241,8 @@ where
 			}
 		}
 		Value::Json(value) => {
-			if type_mapping == Some(Type::Json) && remove_index {
+			// Anything else would be expanded into another JSON literal.
+			if type_mapping == Some(Type::Json) {
 				return Ok(value.clone());
 			} else {
 				let compact_key = compact_key(
-- 
2.43.0


From 0ca43db1abc03dc29847338cbf21cbf03d74ff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:01 +0000
Subject: [PATCH 29/93] fix: reject value objects with more than one type

---
 crates/expansion/src/value.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 79cf735..3f011c8 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -148,6 +148,11 @@ where
 			}
 			// If expanded ...
 			Term::Keyword(Keyword::Type) => {
+				// A value cannot have more than one type.
+				if is_json || ty.is_some() {
+					return Err(InvalidValue::TypedValue);
+				}
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From df595a23b53092b19672d515d63617eb2c974acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 30/93] fix: reject nodes with more than one index

---
 crates/expansion/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index cc7b4b6..98b9c72 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -297,6 +297,11 @@ where
 					Keyword::Direction => has_value_object_entries = true,
 					// If expanded property is @index:
 					Keyword::Index => {
+						// The index is not one of the entries checked above.
+						if result.index().is_some() {
+							return Err(Error::CollidingKeywords);
+						}
+
 						if let Some(index) = value.as_str() {
 							result.set_index(Some(index.to_string()))
 						} else {
-- 
2.43.0


From c0af73c15baf4bae1e4aa94604ab81248e87ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 31/93] fix: accept any term as the prefix of a compact IRI

---
 .../src/algorithm/define.rs                   | 12 ++++-----
 .../context-processing/src/algorithm/iri.rs   | 25 +++++++++++++------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/crates/context-processing/src/algorithm/define.rs b/crates/context-processing/src/algorithm/define.rs
index 947bf92..9797ef0 100644
--- a/crates/context-processing/src/algorithm/define.rs
+++ b/crates/context-processing/src/algorithm/define.rs
@@ -1,4 +1,4 @@
-use super::{expand_iri_simple, expand_iri_with, Environment, Merged};
+use super::{expand_iri_simple, expand_iri_with, split_compact_iri, Environment, Merged};
 use crate::{Error, Options, ProcessingStack, Warning, WarningHandler};
 use iref::{Iri, IriRef};
 use json_ld_core::{
@@ -10,7 +10,7 @@ use json_ld_syntax::{
 		definition::{EntryValueRef, KeyOrKeyword, KeyOrKeywordRef},
 		term_definition::{self, IdRef},
 	},
-	is_keyword_like, CompactIri, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
+	is_keyword_like, ContainerKind, ExpandableRef, Keyword, LenientLangTag, Nullable,
 };
 use rdf_types::{BlankId, VocabularyMut};
 use std::{collections::HashMap, hash::Hash};
@@ -450,7 +450,7 @@ where
 							// Otherwise if the `term` contains a colon (:) anywhere after the first
 							// character.
 							if let KeyOrKeyword::Key(term) = &term {
-								if let Ok(compact_iri) = CompactIri::new(term.as_str()) {
+								if let Some((prefix, suffix)) = split_compact_iri(term.as_str()) {
 									// If `term` is a compact IRI with a prefix that is an entry in local
 									// context a dependency has been found.
 									// Use this algorithm recursively passing `active_context`,
@@ -463,7 +463,7 @@ where
 										},
 										active_context,
 										local_context,
-										KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+										KeyOrKeywordRef::Key(prefix.into()),
 										defined,
 										remote_contexts.clone(),
 										None,
@@ -476,7 +476,7 @@ where
 									// IRI mapping of `definition` to the result of concatenating the value
 									// associated with the prefix's IRI mapping and the term's suffix.
 									if let Some(prefix_definition) =
-										active_context.get(compact_iri.prefix())
+										active_context.get(prefix)
 									{
 										let mut result = String::new();
 
@@ -490,7 +490,7 @@ where
 											}
 										}
 
-										result.push_str(compact_iri.suffix());
+										result.push_str(suffix);
 
 										if let Ok(iri) = Iri::new(result.as_str()) {
 											definition.value =
diff --git a/crates/context-processing/src/algorithm/iri.rs b/crates/context-processing/src/algorithm/iri.rs
index f53b3cb..4cad9b0 100644
--- a/crates/context-processing/src/algorithm/iri.rs
+++ b/crates/context-processing/src/algorithm/iri.rs
@@ -10,7 +10,7 @@ use rdf_types::{
 	vocabulary::{BlankIdVocabulary, IriVocabulary},
 	BlankId, Vocabulary, VocabularyMut,
 };
-use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like, CompactIri};
+use syntax::{context::definition::KeyOrKeywordRef, is_keyword_like};
 
 pub struct MalformedIri(pub String);
 
@@ -103,7 +103,7 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If local context is not null, it contains a `prefix` entry, and the value of the
 					// prefix entry in defined is not true, invoke the Create Term Definition
 					// algorithm, passing active context, local context, prefix as term, and defined.
@@ -117,7 +117,7 @@ where
 						},
 						active_context,
 						local_context,
-						KeyOrKeywordRef::Key(compact_iri.prefix().into()),
+						KeyOrKeywordRef::Key(prefix.into()),
 						defined,
 						remote_contexts,
 						None,
@@ -129,13 +129,13 @@ where
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
@@ -195,6 +195,15 @@ where
 	}
 }
 
+/// Splits a possible compact IRI into its prefix and suffix.
+///
+/// The prefix can be any term, it does not have to be a valid URI scheme.
+pub(crate) fn split_compact_iri(value: &str) -> Option<(&str, &str)> {
+	value.split_once(':').filter(|(prefix, suffix)| {
+		!prefix.is_empty() && *prefix != "_" && !suffix.starts_with("//")
+	})
+}
+
 fn invalid_iri<N, L, W: json_ld_core::warning::Handler<N, Warning>>(
 	env: &mut Environment<N, L, W>,
 	value: String,
@@ -280,17 +289,17 @@ where
 					return Ok(Some(Term::Id(Id::Invalid("_:".to_string()))));
 				}
 
-				if let Ok(compact_iri) = CompactIri::new(value) {
+				if let Some((prefix, suffix)) = split_compact_iri(value) {
 					// If active context contains a term definition for prefix having a non-null IRI
 					// mapping and the prefix flag of the term definition is true, return the result
 					// of concatenating the IRI mapping associated with prefix and suffix.
-					let prefix_key = Key::from(compact_iri.prefix().to_string());
+					let prefix_key = Key::from(prefix.to_string());
 					if let Some(term_definition) = active_context.get_normal(&prefix_key) {
 						if term_definition.prefix {
 							if let Some(mapping) = &term_definition.value {
 								let mut result =
 									mapping.with(&*env.vocabulary).as_str().to_string();
-								result.push_str(compact_iri.suffix());
+								result.push_str(suffix);
 
 								return Ok(Some(Term::Id(Id::from_string_in(
 									env.vocabulary,
-- 
2.43.0


From ddf51e8877ebe9d74243ca2fd9186fd88fc01286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:46 +0000
Subject: [PATCH 32/93] fix: flattening keeps the nodes of named graphs that
 only have types

---
 crates/core/src/flattening/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/flattening/mod.rs b/crates/core/src/flattening/mod.rs
index a521fda..3838085 100644
--- a/crates/core/src/flattening/mod.rs
+++ b/crates/core/src/flattening/mod.rs
@@ -94,7 +94,7 @@ fn filter_graph<T, B>(node: IndexedNode<T, B>) -> Option<IndexedNode<T, B>> {
 }
 
 fn filter_sub_graph<T, B>(mut node: IndexedNode<T, B>) -> Option<IndexedObject<T, B>> {
-	if node.index().is_none() && node.properties().is_empty() {
+	if node.index().is_none() && node.types().is_empty() && node.properties().is_empty() {
 		None
 	} else {
 		node.set_graph_entry(None);
-- 
2.43.0


From e7f51465bf9c19e4c6eedc7e0720f97f86708c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:49 +0000
Subject: [PATCH 33/93] fix: flattening merges the types of all the occurrences
 of a node

---
 crates/core/src/flattening/node_map.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index c6bb1cd..4218bda 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -374,12 +374,13 @@ where
 			.declare_node(id.clone(), index)?;
 
 		if let Some(entry) = node.types.as_deref() {
-			flat_node.types = Some(
-				entry
-					.iter()
-					.map(|ty| env.assign_node_id(Some(ty)))
-					.collect(),
-			);
+			let flat_types = flat_node.types_mut_or_default();
+			for ty in entry {
+				let ty = env.assign_node_id(Some(ty));
+				if !flat_types.contains(&ty) {
+					flat_types.push(ty)
+				}
+			}
 		}
 	}
 
-- 
2.43.0


From e0f01564ba7994c80dc99d5c58a602fdd5610eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 34/93] fix: flattening relabels blank node identifiers used as
 properties

---
 crates/core/src/flattening/node_map.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 4218bda..f7573d6 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -411,6 +411,7 @@ where
 	}
 
 	for (property, objects) in node.properties() {
+		let flat_property = env.assign_node_id(Some(property));
 		let mut flat_objects = Vec::new();
 		for object in objects {
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
@@ -422,11 +423,12 @@ where
 			.get_mut(&id)
 			.unwrap()
 			.properties_mut()
-			.insert_all_unique(property.clone(), flat_objects)
+			.insert_all_unique(flat_property, flat_objects)
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
 		for (property, nodes) in reverse_properties.iter() {
+			let flat_property = env.assign_node_id(Some(property));
 			for subject in nodes {
 				let flat_subject = extend_node_map_from_node(
 					env,
@@ -445,7 +447,7 @@ where
 					.unwrap();
 
 				flat_subject.properties_mut().insert_unique(
-					property.clone(),
+					flat_property.clone(),
 					Indexed::none(Object::node(Node::with_id(id.clone()))),
 				)
 			}
-- 
2.43.0


From 0201ef1152e3c7e263ae475db4df8e7774680d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:54 +0000
Subject: [PATCH 35/93] fix: flattening drops the index of lists

---
 crates/core/src/flattening/node_map.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index f7573d6..2df235d 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -339,10 +339,7 @@ where
 				flat_list.push(extend_node_map(env, node_map, item, active_graph)?);
 			}
 
-			Ok(Indexed::new(
-				Object::List(object::List::new(flat_list)),
-				element.index().map(ToOwned::to_owned),
-			))
+			Ok(Indexed::none(Object::List(object::List::new(flat_list))))
 		}
 		Object::Node(node) => {
 			let flat_node =
-- 
2.43.0


From 698f0378b3dbd8a98fdde4219ecfdbae0e25daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 36/93] fix: flattening keeps equal lists

---
 crates/core/src/flattening/node_map.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/flattening/node_map.rs b/crates/core/src/flattening/node_map.rs
index 2df235d..14cae70 100644
--- a/crates/core/src/flattening/node_map.rs
+++ b/crates/core/src/flattening/node_map.rs
@@ -414,13 +414,22 @@ where
 			let flat_object = extend_node_map(env, node_map, object, active_graph)?;
 			flat_objects.push(flat_object);
 		}
-		node_map
+
+		let flat_properties = node_map
 			.graph_mut(active_graph)
 			.unwrap()
 			.get_mut(&id)
 			.unwrap()
-			.properties_mut()
-			.insert_all_unique(flat_property, flat_objects)
+			.properties_mut();
+
+		flat_properties.insert_all(flat_property.clone(), None);
+		for flat_object in flat_objects {
+			if flat_object.is_list() {
+				flat_properties.insert(flat_property.clone(), flat_object)
+			} else {
+				flat_properties.insert_unique(flat_property.clone(), flat_object)
+			}
+		}
 	}
 
 	if let Some(reverse_properties) = node.reverse_properties_entry() {
-- 
2.43.0


From f360a283003b426ae7ceff9f2954b7485453d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:26 +0000
Subject: [PATCH 37/93] fix: canonicalize literals in graphs and included
 blocks

---
 crates/core/src/object/list.rs     | 12 +++++++++--
 crates/core/src/object/mod.rs      | 12 +++++++++--
 crates/core/src/object/node/mod.rs | 32 ++++++++++++++++++++++++++++--
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 44fe8aa..3d9ac4b 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -74,14 +74,22 @@ impl<T, B> List<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		for object in self {
 			object.canonicalize_with(buffer)
 		}
 	}
 
 	/// Puts this list object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index a65ac70..94b11f1 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -167,7 +167,11 @@ impl<T, B> Object<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		match self {
 			Self::List(l) => l.canonicalize_with(buffer),
 			Self::Node(n) => n.canonicalize_with(buffer),
@@ -176,7 +180,11 @@ impl<T, B> Object<T, B> {
 	}
 
 	/// Puts this object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 5741335..a37f152 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -191,7 +191,31 @@ impl<T, B> Node<T, B> {
 	/// `buffer`.
 	///
 	/// The buffer is used to compute the canonical form of numbers.
-	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer) {
+	pub fn canonicalize_with(&mut self, buffer: &mut ryu_js::Buffer)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
+		if let Some(graph) = self.graph_mut() {
+			*graph = std::mem::take(graph)
+				.into_iter()
+				.map(|mut o| {
+					o.canonicalize_with(buffer);
+					o
+				})
+				.collect();
+		}
+
+		if let Some(included) = self.included_mut() {
+			*included = std::mem::take(included)
+				.into_iter()
+				.map(|mut n| {
+					n.canonicalize_with(buffer);
+					n
+				})
+				.collect();
+		}
+
 		for (_, objects) in self.properties_mut() {
 			for object in objects {
 				object.canonicalize_with(buffer)
@@ -208,7 +232,11 @@ impl<T, B> Node<T, B> {
 	}
 
 	/// Puts this node object literals into canonical form.
-	pub fn canonicalize(&mut self) {
+	pub fn canonicalize(&mut self)
+	where
+		T: Eq + Hash,
+		B: Eq + Hash,
+	{
 		let mut buffer = ryu_js::Buffer::new();
 		self.canonicalize_with(&mut buffer)
 	}
-- 
2.43.0


From 6fcd7c77c06d7c32348f78663a6f4e484500a05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:29 +0000
Subject: [PATCH 38/93] fix: relabel blank node identifiers used as properties

---
 crates/core/src/object/node/mod.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index a37f152..9dc05ac 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -716,17 +716,37 @@ impl<T, B> Relabel<T, B> for Node<T, B> {
 				.collect();
 		}
 
-		for (_, objects) in self.properties_mut() {
-			for object in objects {
+		for (mut property, mut objects) in std::mem::take(&mut self.properties) {
+			if let Some(b) = property.as_blank().cloned() {
+				property = relabeling
+					.entry(b)
+					.or_insert_with(|| generator.next(vocabulary))
+					.clone()
+					.into();
+			}
+
+			for object in &mut objects {
 				object.relabel_with(vocabulary, generator, relabeling);
 			}
+
+			self.properties.insert_all(property, objects);
 		}
 
 		if let Some(reverse_properties) = self.reverse_properties_mut() {
-			for (_, nodes) in reverse_properties.iter_mut() {
-				for node in nodes {
+			for (mut property, mut nodes) in std::mem::take(reverse_properties) {
+				if let Some(b) = property.as_blank().cloned() {
+					property = relabeling
+						.entry(b)
+						.or_insert_with(|| generator.next(vocabulary))
+						.clone()
+						.into();
+				}
+
+				for node in &mut nodes {
 					node.relabel_with(vocabulary, generator, relabeling);
 				}
+
+				reverse_properties.insert_all(property, nodes);
 			}
 		}
 	}
-- 
2.43.0


From 247d13ea0438972921cc2f8818ca172fcc588795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:32 +0000
Subject: [PATCH 39/93] fix: list items without RDF representation no longer
 break the list

---
 crates/core/src/rdf/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index e9c1b41..a579f04 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -552,12 +552,12 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 					let previous = list.previous().cloned();
 					match list.next(vocabulary, generator) {
 						Some(node) => {
+							let id = node.id.clone();
+
 							if let Some(compound_value) =
 								node.object
 									.rdf_value_with(vocabulary, generator, rdf_direction)
 							{
-								let id = node.id.clone();
-
 								if let Some(compound_triples) = compound_value.triples {
 									match compound_triples {
 										CompoundValueTriples::List(list) => {
@@ -574,14 +574,14 @@ impl<'a, T, B, L> ListTriples<'a, T, B, L> {
 									ValidId::Iri(vocabulary.insert(RDF_FIRST)),
 									compound_value.value,
 								));
+							}
 
-								if let Some(previous_id) = previous {
-									break Some(rdf_types::Triple(
-										previous_id,
-										ValidId::Iri(vocabulary.insert(RDF_REST)),
-										id.into_term(),
-									));
-								}
+							if let Some(previous_id) = previous {
+								break Some(rdf_types::Triple(
+									previous_id,
+									ValidId::Iri(vocabulary.insert(RDF_REST)),
+									id.into_term(),
+								));
 							}
 						}
 						None => {
-- 
2.43.0


From 2626277bef6465ab7ceec27bf039a588712b9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 40/93] fix: i18n datatype IRIs have a lower case language and
 always an underscore

---
 crates/core/src/rdf/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index a579f04..c7ab8ec 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -50,9 +50,9 @@ pub enum RdfDirection {
 	/// `https://www.w3.org/ns/i18n#` prefix.
 	///
 	/// If a language tag is present the IRI will be of the form
-	/// `https://www.w3.org/ns/i18n#language_direction` or simply
-	/// `https://www.w3.org/ns/i18n#direction` otherwise where `direction` is
-	/// either `rtl` or `ltr`.
+	/// `https://www.w3.org/ns/i18n#language_direction`, where `language` is in
+	/// lower case, or simply `https://www.w3.org/ns/i18n#_direction` otherwise
+	/// where `direction` is either `rtl` or `ltr`.
 	I18nDatatype,
 
 	/// Encode the direction using a compound literal value.
@@ -627,8 +627,11 @@ where
 
 fn i18n(language: Option<LangTagBuf>, direction: Direction) -> IriBuf {
 	let iri = match &language {
-		Some(language) => format!("https://www.w3.org/ns/i18n#{language}_{direction}"),
-		None => format!("https://www.w3.org/ns/i18n#{direction}"),
+		Some(language) => format!(
+			"https://www.w3.org/ns/i18n#{}_{direction}",
+			language.to_lowercase()
+		),
+		None => format!("https://www.w3.org/ns/i18n#_{direction}"),
 	};
 
 	IriBuf::new(iri).unwrap()
-- 
2.43.0


From 97039615d2e2d1fbfab1e83cc627cbe3f5f239e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:23 +0000
Subject: [PATCH 41/93] fix: compound literals have their triples

---
 crates/core/src/rdf/mod.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index c7ab8ec..4f53b8c 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -18,6 +18,7 @@ pub const RDF_TYPE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#type
 pub const RDF_FIRST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#first");
 pub const RDF_REST: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#rest");
 pub const RDF_VALUE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#value");
+pub const RDF_LANGUAGE: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#language");
 pub const RDF_DIRECTION: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#direction");
 pub const RDF_JSON: &Iri = iri!("http://www.w3.org/1999/02/22-rdf-syntax-ns#JSON");
 /// IRI of the `http://www.w3.org/1999/02/22-rdf-syntax-ns#nil` value.
@@ -60,10 +61,12 @@ pub enum RdfDirection {
 	/// In this case the direction tagged string is encoded with a fresh blank
 	/// node identifier `_:b` and the following triples:
 	/// ```nquads
-	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value@language
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#value value
+	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#language language
 	/// _:b http://www.w3.org/1999/02/22-rdf-syntax-ns#direction direction
 	/// ```
-	/// where `direction` is either `rtl` or `ltr`.
+	/// where `direction` is either `rtl` or `ltr`. The second triple is only
+	/// present if there is a language, in lower case.
 	CompoundLiteral,
 }
 
@@ -99,6 +102,9 @@ pub struct CompoundLiteralTriples<T, B, L> {
 	/// String value.
 	value: Option<Value<T, B, L>>,
 
+	/// Language value.
+	language: Option<Value<T, B, L>>,
+
 	/// Direction value.
 	direction: Option<Value<T, B, L>>,
 }
@@ -113,6 +119,14 @@ impl<T: Clone, B: Clone, L: Clone> CompoundLiteralTriples<T, B, L> {
 			));
 		}
 
+		if let Some(language) = self.language.take() {
+			return Some(rdf_types::Triple(
+				self.id.clone(),
+				ValidId::Iri(vocabulary.insert(RDF_LANGUAGE)),
+				language,
+			));
+		}
+
 		if let Some(direction) = self.direction.take() {
 			return Some(rdf_types::Triple(
 				self.id.clone(),
@@ -140,6 +154,7 @@ impl<T: Clone> crate::object::Value<T> {
 	) -> Option<CompoundLiteral<T, V::BlankId, V::Literal>>
 	where
 		V: Vocabulary<Iri = T> + IriVocabularyMut + LiteralVocabularyMut,
+		V::BlankId: Clone,
 	{
 		match self {
 			Self::Json(json) => {
@@ -179,9 +194,25 @@ impl<T: Clone> crate::object::Value<T> {
 						}
 						Some(RdfDirection::CompoundLiteral) => {
 							let id = generator.next(vocabulary);
+							let mut string_value = |value: String| {
+								let ty = vocabulary.insert(XSD_STRING);
+								Value::Literal(vocabulary.insert_owned_literal(Literal::new(
+									value,
+									rdf_types::LiteralType::Any(ty),
+								)))
+							};
+
+							let triples = CompoundLiteralTriples {
+								id: id.clone(),
+								value: Some(string_value(string.to_string())),
+								language: language
+									.map(|language| string_value(language.to_lowercase())),
+								direction: Some(string_value(direction.to_string())),
+							};
+
 							Some(CompoundLiteral {
 								value: id.into_term(),
-								triples: None,
+								triples: Some(triples),
 							})
 						}
 						None => match language {
-- 
2.43.0


From 97268fb88adc29cb5730d11f4b38a10450455f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:32 +0000
Subject: [PATCH 42/93] fix: integers up to 10^21 are serialized as xsd:integer

---
 crates/core/src/rdf/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 4f53b8c..7e715aa 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -275,16 +275,19 @@ impl<T: Clone> crate::object::Value<T> {
 					}
 					value::Literal::Null => ("null".to_string(), None),
 					value::Literal::Number(n) => {
-						if n.is_i64()
-							&& !ty
-								.as_ref()
-								.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
-								.unwrap_or(false)
-						{
+						let is_double = ty
+							.as_ref()
+							.map(|t| vocabulary.iri(t).unwrap() == XSD_DOUBLE)
+							.unwrap_or(false);
+						let f = n.as_f64_lossy();
+
+						if n.is_i64() && !is_double {
 							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						} else if f.fract() == 0.0 && f.abs() < 1e21 && !is_double {
+							(format!("{f:.0}"), Some(vocabulary.insert(XSD_INTEGER)))
 						} else {
 							(
-								pretty_dtoa::dtoa(n.as_f64_lossy(), XSD_CANONICAL_FLOAT),
+								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
 								Some(vocabulary.insert(XSD_DOUBLE)),
 							)
 						}
-- 
2.43.0


From 82cdc04916c5817eaeb59b63a9c24c5e7370d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:28 +0000
Subject: [PATCH 43/93] fix: accept value objects typed @json again

---
 crates/expansion/src/value.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 3f011c8..7518646 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -81,6 +81,7 @@ where
 		.as_ref()
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
+	let mut has_type = false;
 	let mut ty = None;
 	let mut index = None;
 	let mut language = None;
@@ -149,10 +150,12 @@ where
 			// If expanded ...
 			Term::Keyword(Keyword::Type) => {
 				// A value cannot have more than one type.
-				if is_json || ty.is_some() {
+				if has_type {
 					return Err(InvalidValue::TypedValue);
 				}
 
+				has_type = true;
+
 				if let Some(ty_value) = value.as_str() {
 					let expanded_ty = expand_iri(
 						env,
-- 
2.43.0


From 4a321101045551366eee7b2a3f2cefcc9f837330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 44/93] fix: only take the content of a graph if the document
 is that graph alone

---
 crates/expansion/src/document.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/document.rs b/crates/expansion/src/document.rs
index 253fc20..15bd085 100644
--- a/crates/expansion/src/document.rs
+++ b/crates/expansion/src/document.rs
@@ -1,4 +1,4 @@
-use super::expand_element;
+use super::{expand_element, Expanded};
 use crate::{ActiveProperty, Error, Loader, Options, WarningHandler};
 use json_ld_core::{Context, Environment, ExpandedDocument, IndexedObject, Object};
 use json_syntax::Value;
@@ -34,8 +34,7 @@ where
 		false,
 	)
 	.await?;
-	if expanded.len() == 1 {
-		let obj = expanded.into_iter().next().unwrap();
+	if let Expanded::Object(obj) = expanded {
 		match obj.into_unnamed_graph() {
 			Ok(graph) => Ok(ExpandedDocument::from(graph)),
 			Err(obj) => {
-- 
2.43.0


From 52b10732fc4d78f38a9435d52d6fea001e4a6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:45 +0000
Subject: [PATCH 45/93] fix: refuse unexpected entries when reading expanded
 value objects

---
 crates/core/src/object/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/object/value.rs b/crates/core/src/object/value.rs
index 9f3934b..a54aed0 100644
--- a/crates/core/src/object/value.rs
+++ b/crates/core/src/object/value.rs
@@ -267,6 +267,7 @@ impl<T> Value<T> {
 			.map_err(InvalidExpandedJson::duplicate_key)?
 		{
 			Some(type_entry) => match type_entry.value {
+				_ if !object.is_empty() => Err(InvalidExpandedJson::UnexpectedEntry),
 				json_syntax::Value::String(ty) => match ty.as_str() {
 					"@json" => Ok(Self::Json(value_entry.value)),
 					iri => match Iri::new(iri) {
@@ -297,6 +298,8 @@ impl<T> Value<T> {
 						language,
 						direction,
 					)?))
+				} else if !object.is_empty() {
+					Err(InvalidExpandedJson::UnexpectedEntry)
 				} else {
 					let lit = value_entry.value.try_into()?;
 					Ok(Self::Literal(lit, None))
-- 
2.43.0


From 7142c2ffa2b4b93792e5975d520bf408bbcdcb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:48 +0000
Subject: [PATCH 46/93] fix: refuse duplicate properties when reading expanded
 nodes

---
 crates/core/src/object/node/properties.rs         | 4 ++++
 crates/core/src/object/node/reverse_properties.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/crates/core/src/object/node/properties.rs b/crates/core/src/object/node/properties.rs
index d556ec0..4abe900 100644
--- a/crates/core/src/object/node/properties.rs
+++ b/crates/core/src/object/node/properties.rs
@@ -219,6 +219,10 @@ impl<T: Eq + Hash, B: Eq + Hash> TryFromJsonObject<T, B> for Properties<T, B> {
 
 		for entry in object {
 			let prop = Id::from_string_in(vocabulary, entry.key.to_string());
+			if result.contains(&prop) {
+				return Err(InvalidExpandedJson::DuplicateKey(entry.key));
+			}
+
 			let objects: Vec<IndexedObject<T, B>> = Vec::try_from_json_in(vocabulary, entry.value)?;
 			result.insert_all(prop, objects)
 		}
diff --git a/crates/core/src/object/node/reverse_properties.rs b/crates/core/src/object/node/reverse_properties.rs
index 96fe85c..5dbf71f 100644
--- a/crates/core/src/object/node/reverse_properties.rs
+++ b/crates/core/src/object/node/reverse_properties.rs
@@ -224,6 +224,10 @@ impl<T: Eq + Hash, B: Eq + Hash> TryFromJsonObject<T, B> for ReverseProperties<T
 
 		for entry in object {
 			let prop = Id::from_string_in(vocabulary, entry.key.to_string());
+			if result.contains(&prop) {
+				return Err(InvalidExpandedJson::DuplicateKey(entry.key));
+			}
+
 			let nodes: Vec<IndexedNode<T, B>> = Vec::try_from_json_in(vocabulary, entry.value)?;
 			result.insert_all(prop, nodes)
 		}
-- 
2.43.0


From 4b3a0cb48d9e05aacbf60f35f3331fab5bd77c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:45 +0000
Subject: [PATCH 47/93] fix: keep the index of a document that is an indexed
 graph

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 94b11f1..c17c760 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -490,7 +490,7 @@ impl<T, B> Indexed<Object<T, B>> {
 	pub fn into_unnamed_graph(self) -> Result<Graph<T, B>, Self> {
 		let (obj, index) = self.into_parts();
 		match obj {
-			Object::Node(n) => match n.into_unnamed_graph() {
+			Object::Node(n) if index.is_none() => match n.into_unnamed_graph() {
 				Ok(g) => Ok(g),
 				Err(n) => Err(Indexed::new(Object::node(n), index)),
 			},
-- 
2.43.0


From 99da2a780e17ecd9afec9350163442c72bb521ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:18 +0000
Subject: [PATCH 48/93] fix: traverse the items of list objects

---
 crates/core/src/object/list.rs | 34 ++++++++++++++++++++++++++++++++++
 crates/core/src/object/mod.rs  |  3 +++
 2 files changed, 37 insertions(+)

diff --git a/crates/core/src/object/list.rs b/crates/core/src/object/list.rs
index 3d9ac4b..7bbb59d 100644
--- a/crates/core/src/object/list.rs
+++ b/crates/core/src/object/list.rs
@@ -214,6 +214,40 @@ pub enum FragmentRef<'a, T, B> {
 	Value(&'a [IndexedObject<T, B>]),
 }
 
+impl<'a, T, B> FragmentRef<'a, T, B> {
+	pub fn sub_fragments(&self) -> SubFragments<'a, T, B> {
+		match self {
+			Self::Entry(l) => SubFragments::Entry(Some(()), Some(l)),
+			Self::Key => SubFragments::None,
+			Self::Value(l) => SubFragments::Items(l.iter()),
+		}
+	}
+}
+
+pub enum SubFragments<'a, T, B> {
+	None,
+	Entry(Option<()>, Option<&'a [IndexedObject<T, B>]>),
+	Items(core::slice::Iter<'a, IndexedObject<T, B>>),
+}
+
+impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
+	type Item = super::FragmentRef<'a, T, B>;
+
+	fn next(&mut self) -> Option<Self::Item> {
+		match self {
+			Self::None => None,
+			Self::Entry(k, v) => k
+				.take()
+				.map(|()| super::FragmentRef::ListFragment(FragmentRef::Key))
+				.or_else(|| {
+					v.take()
+						.map(|v| super::FragmentRef::ListFragment(FragmentRef::Value(v)))
+				}),
+			Self::Items(i) => i.next().map(super::FragmentRef::IndexedObject),
+		}
+	}
+}
+
 impl<T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoJsonWithContext<N> for List<T, B> {
 	fn into_json_with(self, vocabulary: &N) -> json_syntax::Value {
 		let mut obj = json_syntax::Object::new();
diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index c17c760..b6d7e63 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1077,6 +1077,7 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 			}
 			Self::IndexedNodeList(l) => SubFragments::IndexedNodeList(l.iter()),
 			Self::ValueFragment(i) => SubFragments::Value(i.sub_fragments()),
+			Self::ListFragment(i) => SubFragments::List(i.sub_fragments()),
 			Self::NodeFragment(i) => SubFragments::Node(i.sub_fragments()),
 			_ => SubFragments::None,
 		}
@@ -1112,6 +1113,7 @@ pub enum SubFragments<'a, T, B> {
 	IndexEntry(Option<()>, Option<&'a str>),
 	Object(Option<&'a str>, ObjectSubFragments<'a, T, B>),
 	Value(value::SubFragments<'a, T>),
+	List(list::SubFragments<'a, T, B>),
 	Node(node::SubFragments<'a, T, B>),
 	IndexedNodeList(std::slice::Iter<'a, IndexedNode<T, B>>),
 }
@@ -1131,6 +1133,7 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				None => i.next(),
 			},
 			Self::Value(i) => i.next().map(FragmentRef::ValueFragment),
+			Self::List(i) => i.next(),
 			Self::Node(i) => i.next(),
 			Self::IndexedNodeList(i) => i.next().map(FragmentRef::IndexedNode),
 		}
-- 
2.43.0


From 68130f05cbd4968bc8f19ecdd53ffaa271dd694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 49/93] fix: traverse the names of reverse properties

---
 crates/core/src/object/node/mod.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 9dc05ac..8132331 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -872,7 +872,7 @@ impl<'a, T, B> EntryValueRef<'a, T, B> {
 			Self::Type(l) => SubFragments::Type(l.iter()),
 			Self::Graph(g) => SubFragments::Graph(g.iter()),
 			Self::Included(i) => SubFragments::Included(i.iter()),
-			Self::Reverse(r) => SubFragments::Reverse(r.iter()),
+			Self::Reverse(r) => SubFragments::Reverse(r.iter(), None),
 			Self::Property(p) => SubFragments::Property(p.iter()),
 			_ => SubFragments::None,
 		}
@@ -1196,7 +1196,10 @@ pub enum SubFragments<'a, T, B> {
 	Type(std::slice::Iter<'a, Id<T, B>>),
 	Graph(indexmap::set::Iter<'a, IndexedObject<T, B>>),
 	Included(indexmap::set::Iter<'a, IndexedNode<T, B>>),
-	Reverse(reverse_properties::Iter<'a, T, B>),
+	Reverse(
+		reverse_properties::Iter<'a, T, B>,
+		Option<&'a [IndexedNode<T, B>]>,
+	),
 	Property(std::slice::Iter<'a, IndexedObject<T, B>>),
 }
 
@@ -1218,9 +1221,13 @@ impl<'a, T, B> Iterator for SubFragments<'a, T, B> {
 				.map(|t| super::FragmentRef::NodeFragment(FragmentRef::TypeFragment(t))),
 			Self::Graph(g) => g.next().map(|o| super::FragmentRef::IndexedObject(o)),
 			Self::Included(i) => i.next().map(|n| super::FragmentRef::IndexedNode(n)),
-			Self::Reverse(r) => r
-				.next()
-				.map(|(_, n)| super::FragmentRef::IndexedNodeList(n)),
+			Self::Reverse(r, nodes) => match nodes.take() {
+				Some(n) => Some(super::FragmentRef::IndexedNodeList(n)),
+				None => r.next().map(|(p, n)| {
+					*nodes = Some(n);
+					super::FragmentRef::NodeFragment(FragmentRef::Key(EntryKeyRef::Property(p)))
+				}),
+			},
 			Self::Property(o) => o.next().map(|o| super::FragmentRef::IndexedObject(o)),
 		}
 	}
-- 
2.43.0


From 677074355e434689ea349ad8a17554b4eff2dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 50/93] fix: tell JSON object fragments from JSON array
 fragments

---
 crates/core/src/object/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index b6d7e63..863d84a 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -1060,8 +1060,8 @@ impl<'a, T, B> FragmentRef<'a, T, B> {
 	pub fn is_json_object(&self) -> bool {
 		match self {
 			Self::Object(_) | Self::IndexedObject(_) | Self::Node(_) | Self::IndexedNode(_) => true,
-			Self::ValueFragment(i) => i.is_json_array(),
-			Self::NodeFragment(i) => i.is_json_array(),
+			Self::ValueFragment(i) => i.is_json_object(),
+			Self::NodeFragment(i) => i.is_json_object(),
 			_ => false,
 		}
 	}
-- 
2.43.0


From bde215b13e7d782fa7a3b3fa1eff3d75c0b87ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:24 +0000
Subject: [PATCH 51/93] fix: compare types in mapped equality

---
 crates/core/src/object/mapped_eq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/object/mapped_eq.rs b/crates/core/src/object/mapped_eq.rs
index 42045b2..4ba3c0c 100644
--- a/crates/core/src/object/mapped_eq.rs
+++ b/crates/core/src/object/mapped_eq.rs
@@ -258,6 +258,9 @@ impl<T: Eq + Hash, B: Eq + Hash> MappedEq for super::Node<T, B> {
 		B: 'a + 'b,
 	{
 		opt_mapped_eq(self.id.as_ref(), other.id.as_ref(), f.clone())
+			&& self
+				.types()
+				.unordered_mapped_eq(other.types(), f.clone())
 			&& opt_mapped_eq(self.included_entry(), other.included_entry(), f.clone())
 			&& opt_mapped_eq(self.graph_entry(), other.graph_entry(), f.clone())
 			&& self.properties().mapped_eq(other.properties(), f.clone())
-- 
2.43.0


From 1b423e4b7ded008b34ea4616535ae746a647a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:27 +0000
Subject: [PATCH 52/93] fix: compare JSON objects with duplicate keys

---
 crates/syntax/src/compare.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/syntax/src/compare.rs b/crates/syntax/src/compare.rs
index df760ac..a01455d 100644
--- a/crates/syntax/src/compare.rs
+++ b/crates/syntax/src/compare.rs
@@ -35,15 +35,20 @@ impl Compare for Value {
 			}
 			(Self::Object(a), Self::Object(b)) => {
 				if a.len() == b.len() {
-					for entry in a {
-						match b.get_unique(&*entry.key).expect("invalid JSON-LD") {
-							Some(value) => {
-								if !entry.value.compare(value) {
-									return false;
-								}
+					let mut selected = Vec::new();
+					selected.resize(b.len(), false);
+
+					'next_entry: for entry in a {
+						for (other, selected) in b.iter().zip(selected.iter_mut()) {
+							if !*selected
+								&& entry.key == other.key && entry.value.compare(&other.value)
+							{
+								*selected = true;
+								continue 'next_entry;
 							}
-							None => return false,
 						}
+
+						return false;
 					}
 
 					true
-- 
2.43.0


From a75ba5cbce9802136aa882c4630576ce36e026a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:48 +0000
Subject: [PATCH 53/93] fix: process linked contexts as remote contexts

---
 src/processor/remote_document.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index 7fab4e7..cd7b780 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -8,9 +8,18 @@ use crate::IntoDocumentResult;
 use crate::{Context, Flatten, Loader, RemoteDocument, RemoteDocumentReference};
 use contextual::WithContext;
 use json_ld_core::{Document, RemoteContextReference};
-use rdf_types::{Generator, VocabularyMut};
+use rdf_types::{vocabulary::IriVocabulary, Generator, VocabularyMut};
 use std::hash::Hash;
 
+/// Turns the given IRI into a context referencing the remote context it
+/// designates.
+fn context_reference<I>(
+	vocabulary: &impl IriVocabulary<Iri = I>,
+	iri: &I,
+) -> json_ld_syntax::context::Context {
+	json_ld_syntax::context::Context::iri_ref(vocabulary.iri(iri).unwrap().to_owned().into())
+}
+
 impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 	async fn compare_full<N>(
 		&self,
@@ -76,11 +85,7 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		};
 
 		if let Some(context_url) = self.context_url() {
-			active_context = RemoteDocumentReference::Iri(context_url.clone())
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
+			active_context = context_reference(vocabulary, context_url)
 				.process_full(
 					vocabulary,
 					&active_context,
-- 
2.43.0


From aca1fe7c3cc19ea25687d8b9b0a394d13032606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 54/93] fix: process the expandContext option relative to its
 own URL

---
 src/processor/remote_document.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/processor/remote_document.rs b/src/processor/remote_document.rs
index cd7b780..a9e909b 100644
--- a/src/processor/remote_document.rs
+++ b/src/processor/remote_document.rs
@@ -66,16 +66,20 @@ impl<I> JsonLdProcessor<I> for RemoteDocument<I> {
 		let mut active_context = Context::new(options.base.clone().or_else(|| self.url().cloned()));
 
 		if let Some(expand_context) = options.expand_context.take() {
+			let (expand_context, expand_context_url) = match expand_context {
+				RemoteDocumentReference::Iri(iri) => (context_reference(vocabulary, &iri), None),
+				RemoteDocumentReference::Loaded(context) => {
+					let url = context.url().cloned();
+					(context.into_document(), url)
+				}
+			};
+
 			active_context = expand_context
-				.load_context_with(vocabulary, loader)
-				.await
-				.map_err(ExpandError::ContextLoading)?
-				.into_document()
 				.process_full(
 					vocabulary,
 					&active_context,
 					loader,
-					active_context.original_base_url().cloned(),
+					expand_context_url.or_else(|| active_context.original_base_url().cloned()),
 					options.context_processing_options(),
 					&mut warnings,
 				)
-- 
2.43.0


From 2b473b11711bba07dbc344e385180f93f6bd16bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:51 +0000
Subject: [PATCH 55/93] fix: process compaction contexts relative to their own
 URL

---
 src/processor/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index 4fa0406..c0d0c38 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -1889,20 +1889,20 @@ where
 	T: Compact<N::Iri, N::BlankId>,
 	L: Loader,
 {
-	let context_base = url.or(options.base.as_ref());
-
 	let context = context
 		.load_context_with(vocabulary, loader)
 		.await
-		.map_err(CompactError::ContextLoading)?
-		.into_document();
+		.map_err(CompactError::ContextLoading)?;
+
+	let context_base = context.url().or(url).or(options.base.as_ref()).cloned();
+	let context = context.into_document();
 
 	let mut active_context = context
 		.process_full(
 			vocabulary,
 			&Context::new(None),
 			loader,
-			context_base.cloned(),
+			context_base,
 			options.context_processing_options(),
 			warnings,
 		)
-- 
2.43.0


From 412615ebe804c2797ee5c4181ff9ff9783e3d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:07 +0000
Subject: [PATCH 56/93] fix: give remote contexts that are not contexts their
 error code

---
 crates/core/src/loader/mod.rs | 12 ++++++++++++
 src/processor/mod.rs          |  6 +++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/loader/mod.rs b/crates/core/src/loader/mod.rs
index f8ae90b..458f7a2 100644
--- a/crates/core/src/loader/mod.rs
+++ b/crates/core/src/loader/mod.rs
@@ -1,5 +1,6 @@
 use hashbrown::HashSet;
 use iref::{Iri, IriBuf};
+use json_ld_syntax::ErrorCode;
 use mime::Mime;
 use rdf_types::vocabulary::{IriVocabulary, IriVocabularyMut};
 use static_iref::iri;
@@ -98,6 +99,17 @@ pub enum ContextLoadError {
 	ContextExtractionFailed(#[from] ExtractContextError),
 }
 
+impl ContextLoadError {
+	/// Returns the code of this error.
+	pub fn code(&self) -> ErrorCode {
+		match self {
+			Self::LoadingDocumentFailed(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextExtractionFailed(ExtractContextError::Syntax(e)) => e.code(),
+			Self::ContextExtractionFailed(_) => ErrorCode::InvalidRemoteContext,
+		}
+	}
+}
+
 impl<I> RemoteContextReference<I> {
 	/// Loads the remote context with the given `vocabulary` and `loader`.
 	///
diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index c0d0c38..9636ec4 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -170,7 +170,7 @@ impl ExpandError {
 			Self::Expansion(e) => e.code(),
 			Self::ContextProcessing(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -212,7 +212,7 @@ impl CompactError {
 			Self::ContextProcessing(e) => e.code(),
 			Self::Compaction(e) => e.code(),
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
@@ -247,7 +247,7 @@ impl<I, B> FlattenError<I, B> {
 			Self::Compact(e) => e.code(),
 			Self::ConflictingIndexes(_) => ErrorCode::ConflictingIndexes,
 			Self::Loading(_) => ErrorCode::LoadingDocumentFailed,
-			Self::ContextLoading(_) => ErrorCode::LoadingRemoteContextFailed,
+			Self::ContextLoading(e) => e.code(),
 		}
 	}
 }
-- 
2.43.0


From ed28a7a3789079636cade3c6df20fefe675b7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:08 +0000
Subject: [PATCH 57/93] fix: keep rdf:first apart from rdf:type when reading a
 dataset

---
 crates/core/src/serialization.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index bea3008..0cb4142 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -265,7 +265,6 @@ impl<I, B> ExpandedDocument<I, B> {
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) => {
-					rdf_terms.first = Some(quad.1);
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
-- 
2.43.0


From 5b1f2eb5c7d2ae5a4eb081d7ce30b977662b4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 58/93] fix: keep resources that refer to themselves when
 reading a dataset

---
 crates/core/src/serialization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 0cb4142..e226202 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -297,7 +297,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.1 == quad.2 {
+			if quad.0 == quad.2 {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From b7ba3dd779b86d614b13f499e620afdfd63306fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:12 +0000
Subject: [PATCH 59/93] fix: keep rdf:type properties whose value is a literal

---
 crates/core/src/serialization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index e226202..15f72d4 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -264,7 +264,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			let subject = graph.resource_mut(quad.0);
 
 			match rdf_property(vocabulary, interpretation, quad.1) {
-				Some(RdfProperty::Type) => {
+				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
 
 					if ty.is_list() {
@@ -291,7 +291,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					subject.list.rest.insert(quad.2);
 					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
 				}
-				None => {
+				Some(RdfProperty::Type) | None => {
 					subject.insert(quad.1, quad.2);
 				}
 			}
-- 
2.43.0


From 99e2802430d1ad864ac8e3ace2804d396712e8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 60/93] fix: keep the properties of resources used as types

---
 crates/core/src/serialization.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 15f72d4..e28e33e 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -263,6 +263,9 @@ impl<I, B> ExpandedDocument<I, B> {
 			let graph = node_map.graph_mut(quad.3);
 			let subject = graph.resource_mut(quad.0);
 
+			// Types are rendered as plain identifiers.
+			let mut embeddable = true;
+
 			match rdf_property(vocabulary, interpretation, quad.1) {
 				Some(RdfProperty::Type) if id_of(interpretation, quad.2).is_some() => {
 					let ty = rdf_type(vocabulary, interpretation, quad.2);
@@ -272,6 +275,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.types.insert(ty);
+					embeddable = false;
 				}
 				Some(RdfProperty::First) => {
 					rdf_terms.first = Some(quad.1);
@@ -297,7 +301,7 @@ impl<I, B> ExpandedDocument<I, B> {
 			}
 
 			let object = graph.resource_mut(quad.2);
-			if quad.0 == quad.2 {
+			if quad.0 == quad.2 || !embeddable {
 				object.references = usize::MAX;
 			} else {
 				let r = object.references;
-- 
2.43.0


From 05914ddf9df684b6b49ec86b70f1d7934b226b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 61/93] fix: keep resources that are part of a reference cycle
 when reading a dataset

---
 crates/core/src/serialization.rs | 55 ++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index e28e33e..19c801f 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -51,6 +51,16 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
+	fn break_reference_cycles(&mut self)
+	where
+		R: Copy,
+	{
+		self.default_graph.break_reference_cycles();
+		for graph in self.named_graphs.values_mut() {
+			graph.break_reference_cycles()
+		}
+	}
+
 	fn fold_into_default_graph(mut self) -> SerGraph<R> {
 		for (id, graph) in self.named_graphs {
 			self.default_graph.resource_mut(id).graph = Some(graph);
@@ -98,6 +108,9 @@ struct SerResource<R> {
 	graph: Option<SerGraph<R>>,
 	list: SerList<R>,
 	references: usize,
+
+	/// Last resource found to reference this one.
+	referrer: Option<R>,
 }
 
 impl<R> Default for SerResource<R> {
@@ -108,6 +121,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			referrer: None,
 		}
 	}
 }
@@ -155,6 +169,44 @@ impl<R> SerGraph<R> {
 	{
 		self.resources.entry(id).or_default()
 	}
+
+	/// Ensures that no resource part of a reference cycle is embedded in its
+	/// only referrer, as it would then never be rendered.
+	fn break_reference_cycles(&mut self)
+	where
+		R: Ord + Copy,
+	{
+		let mut visited = BTreeSet::new();
+		let mut cyclic = Vec::new();
+
+		for &id in self.resources.keys() {
+			let mut path = Vec::new();
+			let mut current = id;
+
+			// Follow the single references, up to a resource already visited.
+			while visited.insert(current) {
+				match self.resources.get(&current) {
+					Some(SerResource {
+						references: 1,
+						referrer: Some(referrer),
+						..
+					}) => {
+						path.push(current);
+						current = *referrer;
+					}
+					_ => break,
+				}
+			}
+
+			if let Some(i) = path.iter().position(|&other| other == current) {
+				cyclic.extend_from_slice(&path[i..])
+			}
+		}
+
+		for id in cyclic {
+			self.resource_mut(id).references = usize::MAX
+		}
+	}
 }
 
 enum RdfProperty {
@@ -307,8 +359,11 @@ impl<I, B> ExpandedDocument<I, B> {
 				let r = object.references;
 				object.references = r.saturating_add(1)
 			}
+			object.referrer = Some(quad.0);
 		}
 
+		node_map.break_reference_cycles();
+
 		let mut graph = node_map.fold_into_default_graph();
 
 		let mut lists = Vec::new();
-- 
2.43.0


From dabc505499ec5bb2ffed8fb9f27891c6de406e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 62/93] fix: find the lists of a dataset, in any of its graphs

---
 crates/core/src/serialization.rs | 94 ++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 41 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 19c801f..c81cd1c 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -170,6 +170,56 @@ impl<R> SerGraph<R> {
 		self.resources.entry(id).or_default()
 	}
 
+	/// Finds the well-formed lists of the graph, and of its named graphs.
+	///
+	/// List nodes are not rendered on their own: only anonymous nodes
+	/// referenced exactly once can be part of a list.
+	fn convert_lists(&mut self, nil: R, is_anonymous: impl Copy + Fn(R) -> bool)
+	where
+		R: Ord + Copy,
+	{
+		let get_list_node = |id: R| {
+			self.get(&id).filter(|resource| {
+				is_anonymous(id) && resource.references == 1 && resource.is_list_node()
+			})
+		};
+
+		let mut lists = Vec::new();
+		if let Some(nil) = self.get(&nil) {
+			for &node_id in &nil.list.reverse_rest {
+				let mut head_id = None;
+				let mut values = Vec::new();
+				let mut next = Some(node_id);
+
+				while let Some(id) = next {
+					match get_list_node(id) {
+						Some(node) => {
+							head_id = Some(id);
+							values.extend(node.list.first.iter().next().copied());
+							next = node.list.reverse_rest.iter().next().copied();
+						}
+						None => break,
+					}
+				}
+
+				if let Some(head_id) = head_id {
+					values.reverse();
+					lists.push((head_id, values))
+				}
+			}
+		}
+
+		for (id, values) in lists {
+			self.resource_mut(id).list.values = Some(values)
+		}
+
+		for resource in self.resources.values_mut() {
+			if let Some(graph) = &mut resource.graph {
+				graph.convert_lists(nil, is_anonymous)
+			}
+		}
+	}
+
 	/// Ensures that no resource part of a reference cycle is embedded in its
 	/// only referrer, as it would then never be rendered.
 	fn break_reference_cycles(&mut self)
@@ -345,7 +395,7 @@ impl<I, B> ExpandedDocument<I, B> {
 					}
 
 					subject.list.rest.insert(quad.2);
-					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.1);
+					graph.resource_mut(quad.2).list.reverse_rest.insert(quad.0);
 				}
 				Some(RdfProperty::Type) | None => {
 					subject.insert(quad.1, quad.2);
@@ -366,46 +416,8 @@ impl<I, B> ExpandedDocument<I, B> {
 
 		let mut graph = node_map.fold_into_default_graph();
 
-		let mut lists = Vec::new();
-		if let Some(nil_id) = nil {
-			if let Some(nil) = graph.get(&nil_id) {
-				for &node_id in &nil.list.reverse_rest {
-					let mut head_id = node_id;
-					if is_anonymous(interpretation, head_id) {
-						if let Some(mut head) = graph.get(&head_id) {
-							if head.references == 1 && head.is_list_node() {
-								let mut values = Vec::new();
-
-								loop {
-									let first = head.list.first.iter().next().copied().unwrap();
-									let parent_id =
-										head.list.reverse_rest.iter().next().copied().unwrap();
-									values.push(first);
-
-									if is_anonymous(interpretation, parent_id) {
-										if let Some(parent) = graph.get(&parent_id) {
-											if parent.references == 1 && parent.is_list_node() {
-												head_id = parent_id;
-												head = parent;
-												continue;
-											}
-										}
-									}
-
-									break;
-								}
-
-								values.reverse();
-								lists.push((head_id, values))
-							}
-						}
-					}
-				}
-			}
-		}
-
-		for (id, values) in lists {
-			graph.resource_mut(id).list.values = Some(values)
+		if let Some(nil) = nil {
+			graph.convert_lists(nil, |id| is_anonymous(interpretation, id))
 		}
 
 		let mut result = ExpandedDocument::new();
-- 
2.43.0


From 490bf371d70e05d5a40c38a77d928f43a0aa652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:50 +0000
Subject: [PATCH 63/93] fix: keep the identifier of list nodes used in multiple
 graphs

---
 crates/core/src/serialization.rs | 33 +++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index c81cd1c..d7d3d7e 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -61,6 +61,29 @@ impl<R: Ord> SerDataset<R> {
 		}
 	}
 
+	fn find_shared_resources(&mut self)
+	where
+		R: Copy,
+	{
+		let mut known: BTreeSet<R> = self.named_graphs.keys().copied().collect();
+		let mut shared = BTreeSet::new();
+
+		for graph in std::iter::once(&self.default_graph).chain(self.named_graphs.values()) {
+			for &id in graph.resources.keys() {
+				if !known.insert(id) {
+					shared.insert(id);
+				}
+			}
+		}
+
+		for graph in std::iter::once(&mut self.default_graph).chain(self.named_graphs.values_mut())
+		{
+			for (id, resource) in &mut graph.resources {
+				resource.shared = shared.contains(id)
+			}
+		}
+	}
+
 	fn fold_into_default_graph(mut self) -> SerGraph<R> {
 		for (id, graph) in self.named_graphs {
 			self.default_graph.resource_mut(id).graph = Some(graph);
@@ -109,6 +132,9 @@ struct SerResource<R> {
 	list: SerList<R>,
 	references: usize,
 
+	/// Is this resource also used elsewhere in the dataset?
+	shared: bool,
+
 	/// Last resource found to reference this one.
 	referrer: Option<R>,
 }
@@ -121,6 +147,7 @@ impl<R> Default for SerResource<R> {
 			graph: None,
 			list: SerList::default(),
 			references: 0,
+			shared: false,
 			referrer: None,
 		}
 	}
@@ -180,7 +207,10 @@ impl<R> SerGraph<R> {
 	{
 		let get_list_node = |id: R| {
 			self.get(&id).filter(|resource| {
-				is_anonymous(id) && resource.references == 1 && resource.is_list_node()
+				is_anonymous(id)
+					&& resource.references == 1
+					&& !resource.shared
+					&& resource.is_list_node()
 			})
 		};
 
@@ -413,6 +443,7 @@ impl<I, B> ExpandedDocument<I, B> {
 		}
 
 		node_map.break_reference_cycles();
+		node_map.find_shared_resources();
 
 		let mut graph = node_map.fold_into_default_graph();
 
-- 
2.43.0


From 2fb9f1476e7e33cbca64417d45ef4281d4a6e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:52 +0000
Subject: [PATCH 64/93] fix: keep the properties of rdf:nil when reading a
 dataset

---
 crates/core/src/serialization.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index d7d3d7e..3ac049b 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -215,7 +215,7 @@ impl<R> SerGraph<R> {
 		};
 
 		let mut lists = Vec::new();
-		if let Some(nil) = self.get(&nil) {
+		if let Some(nil) = self.resources.get(&nil) {
 			for &node_id in &nil.list.reverse_rest {
 				let mut head_id = None;
 				let mut values = Vec::new();
@@ -243,6 +243,11 @@ impl<R> SerGraph<R> {
 			self.resource_mut(id).list.values = Some(values)
 		}
 
+		if let Some(nil) = self.resources.get_mut(&nil) {
+			// The list nodes referencing it may not be rendered.
+			nil.references = usize::MAX
+		}
+
 		for resource in self.resources.values_mut() {
 			if let Some(graph) = &mut resource.graph {
 				graph.convert_lists(nil, is_anonymous)
-- 
2.43.0


From 8c2be18583356837ea38fe55ed74a4e487c3c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:22 +0000
Subject: [PATCH 65/93] fix: keep the literals that have no JSON counterpart
 when reading a dataset

---
 crates/core/src/serialization.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crates/core/src/serialization.rs b/crates/core/src/serialization.rs
index 3ac049b..9ec4a60 100644
--- a/crates/core/src/serialization.rs
+++ b/crates/core/src/serialization.rs
@@ -788,26 +788,23 @@ where
 								})?;
 							Value::Json(json)
 						} else if ty == XSD_BOOLEAN {
-							let b = match l.as_ref() {
-								"true" | "1" => true,
-								"false" | "0" => false,
-								other => {
-									return Err(SerializationError::InvalidBoolean(
-										context.into_iris(vocabulary, interpretation),
-										other.to_owned(),
-									))
-								}
+							let value = match l.as_ref() {
+								"true" | "1" => Literal::Boolean(true),
+								"false" | "0" => Literal::Boolean(false),
+								other => Literal::String(other.into()),
 							};
 
-							Value::Literal(Literal::Boolean(b), Some(i.clone()))
+							Value::Literal(value, Some(i.clone()))
 						} else if ty == XSD_INTEGER || ty == XSD_DOUBLE {
-							let n = json_syntax::NumberBuf::from_str(l.as_str()).map_err(|_| {
-								SerializationError::Number(
-									context.into_iris(vocabulary, interpretation),
-									l.as_ref().to_owned(),
-								)
-							})?;
-							Value::Literal(Literal::Number(n), Some(i.clone()))
+							// Only use a JSON number if it stands for the literal.
+							let value = match json_syntax::NumberBuf::from_str(l.as_str()) {
+								Ok(n) if ty == XSD_DOUBLE || n.as_i64().is_some() => {
+									Literal::Number(n)
+								}
+								_ => Literal::String(l.as_ref().into()),
+							};
+
+							Value::Literal(value, Some(i.clone()))
 						} else if ty == XSD_STRING {
 							Value::Literal(Literal::String(l.as_ref().into()), None)
 						} else {
-- 
2.43.0


From 13b714b70da5e6f6bd08ff94e849aeeeb7aad576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 66/93] fix: visit the graphs of nodes that also have
 properties

---
 .../core/src/deserialization/object/node.rs   | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 135201f..082eb9e 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -4,7 +4,7 @@ use linked_data::{
 };
 use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
 
-use crate::{rdf::RDF_TYPE, IndexedNode, IndexedObject, Node};
+use crate::{object::Graph, rdf::RDF_TYPE, IndexedNode, IndexedObject, Node};
 
 impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Node<T, B>
 where
@@ -51,8 +51,8 @@ where
 			}
 		}
 
-		if self.is_graph() {
-			visitor.graph(self)?;
+		if let Some(graph) = self.graph() {
+			visitor.graph(&GraphObjects(graph))?;
 		}
 
 		if let Some(included) = self.included() {
@@ -126,6 +126,27 @@ where
 	}
 }
 
+struct GraphObjects<'a, T, B>(&'a Graph<T, B>);
+
+impl<'a, T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataGraph<I, V>
+	for GraphObjects<'a, T, B>
+where
+	T: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
+	B: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
+	V: IriVocabularyMut,
+{
+	fn visit_graph<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
+	where
+		S: linked_data::GraphVisitor<I, V>,
+	{
+		for object in self.0.iter() {
+			visitor.subject(object.inner())?;
+		}
+
+		visitor.end()
+	}
+}
+
 struct Types<'a, T, B>(&'a [crate::Id<T, B>]);
 
 impl<'a, T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataPredicateObjects<I, V>
-- 
2.43.0


From c7e684f8286fd2fdec5a1d0af7dce5b195f955a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 67/93] fix: visit the properties of nodes that also have a
 graph

---
 crates/core/src/deserialization/object/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/node.rs b/crates/core/src/deserialization/object/node.rs
index 082eb9e..55bf739 100644
--- a/crates/core/src/deserialization/object/node.rs
+++ b/crates/core/src/deserialization/object/node.rs
@@ -92,12 +92,12 @@ where
 		S: linked_data::GraphVisitor<I, V>,
 	{
 		match self.graph() {
-			Some(g) => {
+			Some(g) if self.is_graph() => {
 				for object in g.iter() {
 					visitor.subject(object.inner())?;
 				}
 			}
-			None => {
+			_ => {
 				visitor.subject(self)?;
 			}
 		}
-- 
2.43.0


From 282d677bfc4081dff9af9edd587f22bbff9cde37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 68/93] fix: end lists with rdf:nil when visited as Linked Data

---
 .../core/src/deserialization/object/list.rs   | 36 ++++++++++++++-----
 crates/core/src/deserialization/object/mod.rs |  1 +
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/deserialization/object/list.rs b/crates/core/src/deserialization/object/list.rs
index 6b07da2..1322726 100644
--- a/crates/core/src/deserialization/object/list.rs
+++ b/crates/core/src/deserialization/object/list.rs
@@ -1,25 +1,41 @@
 use linked_data::{
-	LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
+	CowRdfTerm, LinkedData, LinkedDataGraph, LinkedDataPredicateObjects, LinkedDataResource, LinkedDataSubject,
 	ResourceInterpretation,
 };
-use rdf_types::{vocabulary::IriVocabularyMut, Interpretation, Vocabulary};
+use rdf_types::{vocabulary::IriVocabularyMut, Id, Interpretation, Term, Vocabulary};
 
 use crate::{
 	object::List,
-	rdf::{RDF_FIRST, RDF_REST},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST},
 	IndexedObject,
 };
 
-impl<T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for List<T, B> {
+impl<T, B, V: Vocabulary + IriVocabularyMut, I: Interpretation> LinkedDataResource<I, V>
+	for List<T, B>
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.is_empty())
 	}
 }
 
+/// Lists are anonymous, except for the empty list `rdf:nil`.
+fn list_interpretation<'a, V: Vocabulary + IriVocabularyMut, I: Interpretation>(
+	vocabulary: &mut V,
+	is_empty: bool,
+) -> ResourceInterpretation<'a, I, V> {
+	ResourceInterpretation::Uninterpreted(if is_empty {
+		Some(CowRdfTerm::Owned(Term::Id(Id::Iri(
+			vocabulary.insert(RDF_NIL),
+		))))
+	} else {
+		None
+	})
+}
+
 impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataSubject<I, V> for List<T, B>
 where
 	T: LinkedDataResource<I, V> + LinkedDataSubject<I, V>,
@@ -82,13 +98,15 @@ where
 
 struct Rest<'a, T, B>(&'a [IndexedObject<T, B>]);
 
-impl<'a, T, B, V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Rest<'a, T, B> {
+impl<'a, T, B, V: Vocabulary + IriVocabularyMut, I: Interpretation> LinkedDataResource<I, V>
+	for Rest<'a, T, B>
+{
 	fn interpretation(
 		&self,
-		_vocabulary: &mut V,
+		vocabulary: &mut V,
 		_interpretation: &mut I,
 	) -> ResourceInterpretation<'_, I, V> {
-		ResourceInterpretation::Uninterpreted(None)
+		list_interpretation(vocabulary, self.0.is_empty())
 	}
 }
 
diff --git a/crates/core/src/deserialization/object/mod.rs b/crates/core/src/deserialization/object/mod.rs
index f51ed88..992c84a 100644
--- a/crates/core/src/deserialization/object/mod.rs
+++ b/crates/core/src/deserialization/object/mod.rs
@@ -13,6 +13,7 @@ impl<T, B, V: Vocabulary<Iri = T>, I: Interpretation> LinkedDataResource<I, V> f
 where
 	T: LinkedDataResource<I, V>,
 	B: LinkedDataResource<I, V>,
+	V: IriVocabularyMut,
 {
 	fn interpretation(
 		&self,
-- 
2.43.0


From 78411ab518de51fa605a16bf04142cc53e25f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:19 +0000
Subject: [PATCH 69/93] fix: serialize lists in order, once

---
 crates/serialization/src/expanded/list.rs   | 199 --------------------
 crates/serialization/src/expanded/mod.rs    |   1 -
 crates/serialization/src/expanded/object.rs | 110 +++++------
 3 files changed, 57 insertions(+), 253 deletions(-)
 delete mode 100644 crates/serialization/src/expanded/list.rs

diff --git a/crates/serialization/src/expanded/list.rs b/crates/serialization/src/expanded/list.rs
deleted file mode 100644
index 8bd5f08..0000000
--- a/crates/serialization/src/expanded/list.rs
+++ /dev/null
@@ -1,199 +0,0 @@
-use std::hash::Hash;
-
-use json_ld_core::{
-	rdf::{RDF_FIRST, RDF_REST},
-	Indexed, IndexedObject, Object,
-};
-use linked_data::{CowRdfTerm, LinkedDataResource};
-use rdf_types::{
-	interpretation::{
-		ReverseBlankIdInterpretation, ReverseIriInterpretation, ReverseLiteralInterpretation,
-	},
-	vocabulary::IriVocabularyMut,
-	Id, Interpretation, Term, Vocabulary,
-};
-
-use crate::Error;
-
-use super::object::serialize_object_with;
-
-pub struct SerializeList<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeList<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			first: None,
-			rest: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::SubjectVisitor<I, V>
-	for SerializeList<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn predicate<L, T>(&mut self, predicate: &L, value: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		let repr = predicate
-			.interpretation(self.vocabulary, self.interpretation)
-			.into_lexical_representation(self.vocabulary, self.interpretation)
-			.map(CowRdfTerm::into_term);
-
-		match repr {
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = id {
-					let iri = self.vocabulary.iri(iri.as_ref()).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = value.visit_objects(serializer)?;
-					}
-				}
-
-				Ok(())
-			}
-			_ => Err(Error::InvalidPredicate),
-		}
-	}
-
-	fn reverse_predicate<L, T>(&mut self, _predicate: &L, _subjects: &T) -> Result<(), Self::Error>
-	where
-		L: ?Sized + LinkedDataResource<I, V>,
-		T: ?Sized + linked_data::LinkedDataPredicateObjects<I, V>,
-	{
-		Err(Error::ListReverseProperty)
-	}
-
-	fn graph<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
-	{
-		Ok(())
-	}
-
-	fn include<T>(&mut self, _value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		Err(Error::ListInclude)
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		let first = self.first.unwrap_or_else(Object::null);
-		let mut result = self.rest;
-		result.push(Indexed::none(first));
-		Ok(result)
-	}
-}
-
-pub struct SerializeListFirst<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Option<Object<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListFirst<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: None,
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListFirst<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Option<Object<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		self.result = Some(serialize_object_with(
-			self.vocabulary,
-			self.interpretation,
-			value,
-		)?);
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
-
-pub struct SerializeListRest<'a, I, V: Vocabulary> {
-	vocabulary: &'a mut V,
-	interpretation: &'a mut I,
-	result: Vec<IndexedObject<V::Iri, V::BlankId>>,
-}
-
-impl<'a, I, V: Vocabulary> SerializeListRest<'a, I, V> {
-	pub fn new(vocabulary: &'a mut V, interpretation: &'a mut I) -> Self {
-		Self {
-			vocabulary,
-			interpretation,
-			result: Vec::new(),
-		}
-	}
-}
-
-impl<'a, I: Interpretation, V: Vocabulary> linked_data::PredicateObjectsVisitor<I, V>
-	for SerializeListRest<'a, I, V>
-where
-	V: IriVocabularyMut,
-	V::Iri: Clone + Eq + Hash,
-	V::BlankId: Clone + Eq + Hash,
-	I: ReverseIriInterpretation<Iri = V::Iri>
-		+ ReverseBlankIdInterpretation<BlankId = V::BlankId>
-		+ ReverseLiteralInterpretation<Literal = V::Literal>,
-{
-	type Ok = Vec<IndexedObject<V::Iri, V::BlankId>>;
-	type Error = Error;
-
-	fn object<T>(&mut self, value: &T) -> Result<(), Self::Error>
-	where
-		T: ?Sized + LinkedDataResource<I, V> + linked_data::LinkedDataSubject<I, V>,
-	{
-		let serializer = SerializeList::new(self.vocabulary, self.interpretation);
-		self.result = value.visit_subject(serializer)?;
-		Ok(())
-	}
-
-	fn end(self) -> Result<Self::Ok, Self::Error> {
-		Ok(self.result)
-	}
-}
diff --git a/crates/serialization/src/expanded/mod.rs b/crates/serialization/src/expanded/mod.rs
index f6d8e67..f71fe9f 100644
--- a/crates/serialization/src/expanded/mod.rs
+++ b/crates/serialization/src/expanded/mod.rs
@@ -13,7 +13,6 @@ use crate::Error;
 
 mod default_graph;
 mod graph;
-mod list;
 mod node;
 mod object;
 mod property;
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 8e09ed1..5e368f1 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -5,7 +5,7 @@ use json_ld_core::{
 		node::{Included, Multiset, Properties, ReverseProperties},
 		Graph, List,
 	},
-	rdf::{RDF_FIRST, RDF_REST, RDF_TYPE},
+	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
 	Indexed, IndexedObject, Node, Object,
 };
 use linked_data::{CowRdfTerm, LinkedDataResource};
@@ -21,7 +21,6 @@ use crate::Error;
 
 use super::{
 	graph::SerializeGraph,
-	list::{SerializeListFirst, SerializeListRest},
 	node::{into_type_value, is_iri, SerializeNode},
 	property::{SerializeProperty, SerializeReverseProperty},
 	serialize_node_with,
@@ -53,13 +52,17 @@ where
 			Ok(Object::Value(value))
 		}
 		Some(Term::Id(id)) => {
-			let serializer = SerializeNode::new(
-				vocabulary,
-				interpretation,
-				Some(json_ld_core::Id::Valid(id)),
-			);
+			let id = json_ld_core::Id::Valid(id);
+			let is_nil = is_iri(vocabulary, &id, RDF_NIL);
+			let serializer = SerializeNode::new(vocabulary, interpretation, Some(id));
 
-			Ok(Object::node(value.visit_subject(serializer)?))
+			let node = value.visit_subject(serializer)?;
+
+			if node.is_empty() && is_nil {
+				Ok(Object::List(List::new(Vec::new())))
+			} else {
+				Ok(Object::node(node))
+			}
 		}
 		None => {
 			let serializer = SerializeObject::new(vocabulary, interpretation);
@@ -77,8 +80,6 @@ pub struct SerializeObject<'a, I, V: Vocabulary> {
 	reverse_properties: ReverseProperties<V::Iri, V::BlankId>,
 	included: Included<V::Iri, V::BlankId>,
 	graph: Option<Graph<V::Iri, V::BlankId>>,
-	first: Option<Object<V::Iri, V::BlankId>>,
-	rest: Option<Vec<IndexedObject<V::Iri, V::BlankId>>>,
 }
 
 impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
@@ -91,8 +92,50 @@ impl<'a, I, V: Vocabulary> SerializeObject<'a, I, V> {
 			reverse_properties: ReverseProperties::new(),
 			included: Included::new(),
 			graph: None,
-			first: None,
-			rest: None,
+		}
+	}
+}
+
+impl<'a, I, V> SerializeObject<'a, I, V>
+where
+	V: Vocabulary + IriVocabularyMut,
+	V::Iri: Clone + Eq + Hash,
+	V::BlankId: Clone + Eq + Hash,
+{
+	/// Returns the items of the list described by this object, if it is a
+	/// well-formed list node: a node with a single `rdf:first` value, a list
+	/// as single `rdf:rest` value, and nothing else.
+	fn take_list_items(&mut self) -> Option<Vec<IndexedObject<V::Iri, V::BlankId>>> {
+		if self.properties.len() != 2
+			|| !self.types.is_empty()
+			|| !self.reverse_properties.is_empty()
+			|| !self.included.is_empty()
+			|| self.graph.is_some()
+		{
+			return None;
+		}
+
+		let first = json_ld_core::Id::Valid(Id::Iri(self.vocabulary.insert(RDF_FIRST)));
+		let rest = json_ld_core::Id::Valid(Id::Iri(self.vocabulary.insert(RDF_REST)));
+
+		if self.properties.get(&first).count() != 1 {
+			return None;
+		}
+
+		let mut rest_objects = self.properties.get(&rest);
+		match (rest_objects.next()?.inner(), rest_objects.next()) {
+			(Object::List(_), None) => (),
+			_ => return None,
+		}
+
+		let first = self.properties.remove(&first)?.into_iter().next()?;
+		match self.properties.remove(&rest)?.into_iter().next()?.into_inner() {
+			Object::List(rest) => {
+				let mut items = rest.into_entry();
+				items.insert(0, first);
+				Some(items)
+			}
+			_ => None,
 		}
 	}
 }
@@ -119,22 +162,7 @@ where
 			.lexical_representation(self.vocabulary, self.interpretation)
 			.map(CowRdfTerm::into_owned)
 		{
-			Some(Term::Id(id)) => {
-				if let Id::Iri(iri) = &id {
-					let iri = self.vocabulary.iri(iri).unwrap();
-					if iri == RDF_FIRST {
-						let serializer =
-							SerializeListFirst::new(self.vocabulary, self.interpretation);
-						self.first = value.visit_objects(serializer)?;
-					} else if iri == RDF_REST {
-						let serializer =
-							SerializeListRest::new(self.vocabulary, self.interpretation);
-						self.rest = Some(value.visit_objects(serializer)?);
-					}
-				}
-
-				json_ld_core::Id::Valid(id)
-			}
+			Some(Term::Id(id)) => json_ld_core::Id::Valid(id),
 			_ => return Err(Error::InvalidPredicate),
 		};
 
@@ -204,33 +232,9 @@ where
 	}
 
 	fn end(mut self) -> Result<Self::Ok, Self::Error> {
-		if self.first.is_some()
-			&& self.rest.is_some()
-			&& self.types.is_empty()
-			&& self.properties.is_empty()
-			&& self.graph.is_none()
-		{
-			#[allow(clippy::unnecessary_unwrap)]
-			let mut items = self.rest.unwrap();
-			#[allow(clippy::unnecessary_unwrap)]
-			items.push(Indexed::none(self.first.unwrap()));
-			items.reverse();
+		if let Some(items) = self.take_list_items() {
 			Ok(Object::List(List::new(items)))
 		} else {
-			if let Some(item) = self.first {
-				let iri = self.vocabulary.insert(RDF_FIRST);
-				self.properties
-					.insert(json_ld_core::Id::Valid(Id::Iri(iri)), Indexed::none(item))
-			}
-
-			if let Some(rest) = self.rest {
-				let iri = self.vocabulary.insert(RDF_REST);
-				self.properties.insert(
-					json_ld_core::Id::Valid(Id::Iri(iri)),
-					Indexed::none(Object::List(List::new(rest))),
-				)
-			}
-
 			let mut node = Node::new();
 
 			if !self.types.is_empty() {
-- 
2.43.0


From 0c83eb5640699882db9e09a25ddf107290bd001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:48 +0000
Subject: [PATCH 70/93] fix: serialize all the values of properties visited
 more than once

---
 crates/serialization/src/expanded/node.rs   | 14 ++++++++------
 crates/serialization/src/expanded/object.rs | 12 ++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/serialization/src/expanded/node.rs b/crates/serialization/src/expanded/node.rs
index e2d4e7b..29e8a8f 100644
--- a/crates/serialization/src/expanded/node.rs
+++ b/crates/serialization/src/expanded/node.rs
@@ -1,5 +1,5 @@
 use iref::Iri;
-use json_ld_core::{object::node::Multiset, Indexed, Node, Object};
+use json_ld_core::{Indexed, Node, Object};
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
@@ -103,22 +103,24 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.result.types_mut_or_default().push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.result.properties_mut().set(prop, non_iri_objects);
+				self.result
+					.properties_mut()
+					.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.result.properties_mut().set(prop, objects);
+			self.result.properties_mut().insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -142,7 +144,7 @@ where
 		let objects = value.visit_objects(serializer)?;
 		self.result
 			.reverse_properties_mut_or_default()
-			.set(prop, objects);
+			.insert_all(prop, objects);
 
 		Ok(())
 	}
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 5e368f1..0ce1bd5 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -2,7 +2,7 @@ use std::hash::Hash;
 
 use json_ld_core::{
 	object::{
-		node::{Included, Multiset, Properties, ReverseProperties},
+		node::{Included, Properties, ReverseProperties},
 		Graph, List,
 	},
 	rdf::{RDF_FIRST, RDF_NIL, RDF_REST, RDF_TYPE},
@@ -171,22 +171,22 @@ where
 		let objects = value.visit_objects(serializer)?;
 
 		if is_iri(self.vocabulary, &prop, RDF_TYPE) {
-			let mut non_iri_objects = Multiset::new();
+			let mut non_iri_objects = Vec::new();
 
 			for obj in objects {
 				match into_type_value(obj) {
 					Ok(ty) => self.types.push(ty),
 					Err(obj) => {
-						non_iri_objects.insert(obj);
+						non_iri_objects.push(obj);
 					}
 				}
 			}
 
 			if !non_iri_objects.is_empty() {
-				self.properties.set(prop, non_iri_objects);
+				self.properties.insert_all(prop, non_iri_objects);
 			}
 		} else {
-			self.properties.set(prop, objects);
+			self.properties.insert_all(prop, objects);
 		}
 
 		Ok(())
@@ -208,7 +208,7 @@ where
 		let serializer = SerializeReverseProperty::new(self.vocabulary, self.interpretation);
 
 		let objects = value.visit_objects(serializer)?;
-		self.reverse_properties.set(prop, objects);
+		self.reverse_properties.insert_all(prop, objects);
 
 		Ok(())
 	}
-- 
2.43.0


From 23393b348a76f5201f9cda29b0d443271cbb57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:59 +0000
Subject: [PATCH 71/93] fix: visit values as the objects of properties

---
 crates/core/src/deserialization/object/value.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index d2f147e..4e0d53c 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -77,11 +77,12 @@ impl<T, V: Vocabulary, I: Interpretation> LinkedDataSubject<I, V> for Value<T> {
 	}
 }
 
-impl<T, V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<T> {
-	fn visit_objects<S>(&self, visitor: S) -> Result<S::Ok, S::Error>
+impl<V: Vocabulary, I: Interpretation> LinkedDataPredicateObjects<I, V> for Value<V::Iri> {
+	fn visit_objects<S>(&self, mut visitor: S) -> Result<S::Ok, S::Error>
 	where
 		S: linked_data::PredicateObjectsVisitor<I, V>,
 	{
+		visitor.object(self)?;
 		visitor.end()
 	}
 }
-- 
2.43.0


From 5aca4a8a76d94bd0df375c7f466438f04b77744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:01 +0000
Subject: [PATCH 72/93] fix: keep the type of boolean values visited as Linked
 Data

---
 crates/core/src/deserialization/object/value.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index 4e0d53c..0521736 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -17,9 +17,15 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 				Literal::Null => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
 					xsd_types::Value::String("null".to_string()),
 				))),
-				Literal::Boolean(b) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
-					xsd_types::Value::Boolean((*b).into()),
-				))),
+				Literal::Boolean(b) => match ty {
+					Some(ty) => CowRdfTerm::Borrowed(Term::Literal(RdfLiteralRef::Any(
+						if *b { "true" } else { "false" },
+						LiteralTypeRef::Any(ty),
+					))),
+					None => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(
+						xsd_types::Value::Boolean((*b).into()),
+					))),
+				},
 				Literal::Number(n) => match ty {
 					Some(ty) => match typed_number_interpretation(vocabulary, ty, n) {
 						Some(value) => CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value))),
-- 
2.43.0


From cd4b86cecf6d53366ae5dc58ef6a63d03298d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 73/93] fix: visit numbers without fractional part as integers

---
 crates/core/src/deserialization/object/value.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/deserialization/object/value.rs b/crates/core/src/deserialization/object/value.rs
index 0521736..bf2c607 100644
--- a/crates/core/src/deserialization/object/value.rs
+++ b/crates/core/src/deserialization/object/value.rs
@@ -37,7 +37,19 @@ impl<V: Vocabulary, I: Interpretation> LinkedDataResource<I, V> for Value<V::Iri
 					None => {
 						let value = match n.as_i64() {
 							Some(i) => xsd_types::Value::Integer(i.into()),
-							None => xsd_types::Value::Double(n.as_f64_lossy().into()),
+							None => {
+								let f = n.as_f64_lossy();
+								let integer = if f.fract() == 0.0 && f.abs() < 1e21 {
+									format!("{f:.0}").parse().ok()
+								} else {
+									None
+								};
+
+								match integer {
+									Some(i) => xsd_types::Value::Integer(i),
+									None => xsd_types::Value::Double(f.into()),
+								}
+							}
 						};
 
 						CowRdfTerm::Owned(Term::Literal(RdfLiteral::Xsd(value)))
-- 
2.43.0


From 4c50d592bc4fe1efa37d09b41f1a8eb422c6300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:04 +0000
Subject: [PATCH 74/93] fix: keep the datatype of numbers serialized as JSON-LD

---
 crates/serialization/src/expanded/value.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/serialization/src/expanded/value.rs b/crates/serialization/src/expanded/value.rs
index 38da4f5..2bfd910 100644
--- a/crates/serialization/src/expanded/value.rs
+++ b/crates/serialization/src/expanded/value.rs
@@ -32,7 +32,6 @@ fn xsd_to_value<V: IriVocabularyMut>(vocabulary: &mut V, value: xsd_types::Value
 	let number = match value {
 		xsd_types::Value::Boolean(b) => return Value::Literal(Literal::Boolean(b.into()), None),
 		xsd_types::Value::String(s) => return Value::Literal(Literal::String(s.into()), None),
-		xsd_types::Value::Decimal(v) => v.to_string(),
 		xsd_types::Value::Integer(v) => v.to_string(),
 		xsd_types::Value::NonPositiveInteger(v) => v.to_string(),
 		xsd_types::Value::NegativeInteger(v) => v.to_string(),
@@ -53,11 +52,17 @@ fn xsd_to_value<V: IriVocabularyMut>(vocabulary: &mut V, value: xsd_types::Value
 	};
 
 	match json_syntax::Number::new(&number) {
-		Ok(_) => {
+		Ok(n) if n.is_i64() => {
 			let n = unsafe { json_syntax::NumberBuf::new_unchecked(number.into_bytes().into()) };
-			Value::Literal(Literal::Number(n), None)
+			let ty = match ty {
+				xsd_types::Datatype::Decimal(xsd_types::DecimalDatatype::Integer(
+					xsd_types::IntegerDatatype::Integer,
+				)) => None,
+				ty => Some(vocabulary.insert(ty.iri())),
+			};
+			Value::Literal(Literal::Number(n), ty)
 		}
-		Err(_) => {
+		_ => {
 			let ty = vocabulary.insert(ty.iri());
 			Value::Literal(Literal::String(number.into()), Some(ty))
 		}
-- 
2.43.0


From c9b0bec29a7a05f40c32235065067bb0e8fff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:55 +0000
Subject: [PATCH 75/93] fix: serialize all the graphs of nodes visited with
 more than one

---
 crates/serialization/src/expanded/node.rs   | 7 +++++--
 crates/serialization/src/expanded/object.rs | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/serialization/src/expanded/node.rs b/crates/serialization/src/expanded/node.rs
index 29e8a8f..7e17576 100644
--- a/crates/serialization/src/expanded/node.rs
+++ b/crates/serialization/src/expanded/node.rs
@@ -1,5 +1,5 @@
 use iref::Iri;
-use json_ld_core::{Indexed, Node, Object};
+use json_ld_core::{object::Graph, Indexed, Node, Object};
 use linked_data::{CowRdfTerm, LinkedDataResource};
 use rdf_types::{
 	interpretation::{
@@ -168,7 +168,10 @@ where
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
 
 		let graph = value.visit_graph(serializer)?;
-		self.result.graph = Some(graph);
+		self.result
+			.graph
+			.get_or_insert_with(Graph::new)
+			.extend(graph);
 		Ok(())
 	}
 
diff --git a/crates/serialization/src/expanded/object.rs b/crates/serialization/src/expanded/object.rs
index 0ce1bd5..2bdafd5 100644
--- a/crates/serialization/src/expanded/object.rs
+++ b/crates/serialization/src/expanded/object.rs
@@ -227,7 +227,8 @@ where
 		T: ?Sized + linked_data::LinkedDataGraph<I, V>,
 	{
 		let serializer = SerializeGraph::new(self.vocabulary, self.interpretation);
-		self.graph = Some(value.visit_graph(serializer)?);
+		let graph = value.visit_graph(serializer)?;
+		self.graph.get_or_insert_with(Graph::new).extend(graph);
 		Ok(())
 	}
 
-- 
2.43.0


From c9b5fb343e656e0f127f1b56a186509cb3ead159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:32 +0000
Subject: [PATCH 76/93] fix: the length of context bindings is known, so that
 contexts can be printed

---
 crates/syntax/src/context/definition/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/syntax/src/context/definition/mod.rs b/crates/syntax/src/context/definition/mod.rs
index b95e220..bc00b7b 100644
--- a/crates/syntax/src/context/definition/mod.rs
+++ b/crates/syntax/src/context/definition/mod.rs
@@ -161,6 +161,10 @@ pub struct BindingsIter<'a>(indexmap::map::Iter<'a, Key, Nullable<TermDefinition
 impl<'a> Iterator for BindingsIter<'a> {
 	type Item = (&'a Key, Nullable<&'a TermDefinition>);
 
+	fn size_hint(&self) -> (usize, Option<usize>) {
+		self.0.size_hint()
+	}
+
 	fn next(&mut self) -> Option<Self::Item> {
 		self.0.next().map(|(k, d)| (k, d.as_ref()))
 	}
-- 
2.43.0


From 8e4a8d9b96276f3c8eaf0fd7b3c78f93a2075665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:35 +0000
Subject: [PATCH 77/93] fix: do not serialize the absent @protected entry of
 @type

---
 crates/syntax/src/context/definition/type_.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/definition/type_.rs b/crates/syntax/src/context/definition/type_.rs
index 62278dd..82af182 100644
--- a/crates/syntax/src/context/definition/type_.rs
+++ b/crates/syntax/src/context/definition/type_.rs
@@ -13,7 +13,14 @@ pub struct Type {
 	)]
 	pub container: Option<TypeContainer>,
 
-	#[cfg_attr(feature = "serde", serde(rename = "@protected"))]
+	#[cfg_attr(
+		feature = "serde",
+		serde(
+			rename = "@protected",
+			default,
+			skip_serializing_if = "Option::is_none"
+		)
+	)]
 	pub protected: Option<bool>,
 }
 
-- 
2.43.0


From c5069a1ca4f041d202b2d4c6a5b4b5ac5903592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 78/93] fix: deserialize the null context of term definitions

---
 crates/syntax/src/context/term_definition/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/syntax/src/context/term_definition/mod.rs b/crates/syntax/src/context/term_definition/mod.rs
index 3d22c94..45ba8de 100644
--- a/crates/syntax/src/context/term_definition/mod.rs
+++ b/crates/syntax/src/context/term_definition/mod.rs
@@ -122,7 +122,12 @@ pub struct Expanded {
 
 	#[cfg_attr(
 		feature = "serde",
-		serde(rename = "@context", default, skip_serializing_if = "Option::is_none")
+		serde(
+			rename = "@context",
+			default,
+			deserialize_with = "some",
+			skip_serializing_if = "Option::is_none"
+		)
 	)]
 	pub context: Option<Box<context::Context>>,
 
@@ -204,6 +209,14 @@ pub struct Expanded {
 	pub protected: Option<bool>,
 }
 
+/// Deserializes a value that may be `null` itself.
+#[cfg(feature = "serde")]
+fn some<'de, T: serde::Deserialize<'de>, D: serde::Deserializer<'de>>(
+	deserializer: D,
+) -> Result<Option<T>, D::Error> {
+	T::deserialize(deserializer).map(Some)
+}
+
 impl Expanded {
 	pub fn new() -> Self {
 		Self::default()
-- 
2.43.0


From 042b605e46995fe2d2cc0007e6e9e569b22c9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:48 +0000
Subject: [PATCH 79/93] fix: print the index of expanded objects under @index

---
 crates/core/src/object/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/object/mod.rs b/crates/core/src/object/mod.rs
index 863d84a..de90526 100644
--- a/crates/core/src/object/mod.rs
+++ b/crates/core/src/object/mod.rs
@@ -718,7 +718,7 @@ impl<'a, T, B, N: Vocabulary<Iri = T, BlankId = B>> IntoRefWithContext<'a, str,
 {
 	fn into_ref_with(self, vocabulary: &'a N) -> &'a str {
 		match self {
-			IndexedEntryKeyRef::Index => "@value",
+			IndexedEntryKeyRef::Index => "@index",
 			IndexedEntryKeyRef::Object(e) => e.into_with(vocabulary).into_str(),
 		}
 	}
-- 
2.43.0


From 4c372515abf8e17fbe6dafa2f4110460060ee471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:31 +0000
Subject: [PATCH 80/93] fix: load documents of any +json media type

---
 crates/core/src/loader/reqwest/content_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 6f13911..96e8168 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -104,7 +104,7 @@ impl ContentType {
 	}
 
 	pub fn is_json_ld(&self) -> bool {
-		self.media_type == "application/json" || self.media_type == "application/ld+json"
+		self.media_type == "application/json" || self.media_type.suffix() == Some(mime::JSON)
 	}
 
 	pub fn media_type(&self) -> &Mime {
-- 
2.43.0


From fc9f0cab3ca89f5acba90cabb27da160cd3a5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:35 +0000
Subject: [PATCH 81/93] fix: white space and the case of names do not matter in
 Content-Type headers

---
 crates/core/src/loader/reqwest/content_type.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/loader/reqwest/content_type.rs b/crates/core/src/loader/reqwest/content_type.rs
index 96e8168..a25e8c5 100644
--- a/crates/core/src/loader/reqwest/content_type.rs
+++ b/crates/core/src/loader/reqwest/content_type.rs
@@ -40,20 +40,21 @@ impl ContentType {
 				},
 				State::NextParam => match bytes.next().copied() {
 					Some(b';') => state = State::BeginKey,
+					Some(b' ' | b'\t') => (),
 					Some(_) => return None,
 					None => break,
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t') => (),
 					Some(b) => {
-						current_key.push(b);
+						current_key.push(b.to_ascii_lowercase());
 						state = State::Key
 					}
 					None => return None,
 				},
 				State::Key => match bytes.next().copied() {
 					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
+					Some(b) => current_key.push(b.to_ascii_lowercase()),
 					None => return None,
 				},
 				State::BeginValue => match bytes.next().copied() {
@@ -85,6 +86,14 @@ impl ContentType {
 
 						state = State::BeginKey
 					}
+					Some(b' ' | b'\t') => {
+						params.insert(
+							std::mem::take(&mut current_key),
+							std::mem::take(&mut current_value),
+						);
+
+						state = State::NextParam
+					}
 					Some(b) => current_value.push(b),
 					None => {
 						params.insert(
@@ -97,7 +106,7 @@ impl ContentType {
 			}
 		}
 
-		match Mime::from_str(std::str::from_utf8(&mime).ok()?) {
+		match Mime::from_str(std::str::from_utf8(&mime).ok()?.trim()) {
 			Ok(media_type) => Some(Self { media_type, params }),
 			Err(_) => None,
 		}
-- 
2.43.0


From ba9cf2714d41a2caa775d6728f47895630675ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:38 +0000
Subject: [PATCH 82/93] fix: read Link headers with several links, several
 relations, tokens or white space

---
 crates/core/src/loader/reqwest/link.rs | 89 +++++++++++++++++++++-----
 crates/core/src/loader/reqwest/mod.rs  | 43 ++++++-------
 2 files changed, 93 insertions(+), 39 deletions(-)

diff --git a/crates/core/src/loader/reqwest/link.rs b/crates/core/src/loader/reqwest/link.rs
index 50b2a25..2b26179 100644
--- a/crates/core/src/loader/reqwest/link.rs
+++ b/crates/core/src/loader/reqwest/link.rs
@@ -9,6 +9,29 @@ pub struct Link {
 
 impl Link {
 	pub fn new(value: &HeaderValue) -> Option<Self> {
+		Self::parse(value.as_bytes())
+	}
+
+	/// All the links of the given header value, separated by commas.
+	pub fn all(value: &HeaderValue) -> impl '_ + Iterator<Item = Self> {
+		let mut in_href = false;
+		let mut in_quotes = false;
+		value
+			.as_bytes()
+			.split(move |b| {
+				match b {
+					b'"' if !in_href => in_quotes = !in_quotes,
+					b'<' if !in_quotes => in_href = true,
+					b'>' if !in_quotes => in_href = false,
+					_ => (),
+				}
+
+				*b == b',' && !in_href && !in_quotes
+			})
+			.filter_map(|link| Self::parse(link.trim_ascii()))
+	}
+
+	fn parse(bytes: &[u8]) -> Option<Self> {
 		enum State {
 			BeginHref,
 			Href,
@@ -16,6 +39,7 @@ impl Link {
 			BeginKey,
 			Key,
 			BeginValue,
+			QuotedValue,
 			Value,
 		}
 
@@ -23,9 +47,16 @@ impl Link {
 		let mut href = Vec::new();
 		let mut current_key = Vec::new();
 		let mut current_value = Vec::new();
-		let mut params = HashMap::new();
+		let mut params: HashMap<Vec<u8>, Vec<u8>> = HashMap::new();
+
+		// Only the first occurrence of a parameter counts.
+		let mut add_param = |key: &mut Vec<u8>, value: &mut Vec<u8>| {
+			params
+				.entry(std::mem::take(key))
+				.or_insert(std::mem::take(value));
+		};
 
-		let mut bytes = value.as_bytes().iter();
+		let mut bytes = bytes.iter();
 
 		loop {
 			match state {
@@ -42,6 +73,7 @@ impl Link {
 				},
 				State::NextParam => match bytes.next().copied() {
 					Some(b';') => state = State::BeginKey,
+					Some(b' ' | b'\t') => (),
 					Some(_) => break None,
 					None => {
 						break match IriRefBuf::from_vec(href) {
@@ -51,34 +83,53 @@ impl Link {
 					}
 				},
 				State::BeginKey => match bytes.next().copied() {
-					Some(b' ') => (),
+					Some(b' ' | b'\t') => (),
 					Some(b) => {
-						current_key.push(b);
+						current_key.push(b.to_ascii_lowercase());
 						state = State::Key
 					}
 					None => break None,
 				},
-				State::Key => match bytes.next().copied() {
-					Some(b'=') => state = State::BeginValue,
-					Some(b) => current_key.push(b),
-					None => break None,
+				State::Key => match bytes.as_slice().first().copied() {
+					Some(b'=') => {
+						bytes.next();
+						state = State::BeginValue
+					}
+					Some(b';' | b' ' | b'\t') | None => {
+						add_param(&mut current_key, &mut current_value);
+						state = State::NextParam
+					}
+					Some(b) => {
+						bytes.next();
+						current_key.push(b.to_ascii_lowercase())
+					}
 				},
 				State::BeginValue => match bytes.next().copied() {
-					Some(b'"') => state = State::Value,
-					_ => break None,
+					Some(b'"') => state = State::QuotedValue,
+					Some(b) => {
+						current_value.push(b);
+						state = State::Value
+					}
+					None => break None,
 				},
-				State::Value => match bytes.next().copied() {
+				State::QuotedValue => match bytes.next().copied() {
 					Some(b'"') => {
-						params.insert(
-							std::mem::take(&mut current_key),
-							std::mem::take(&mut current_value),
-						);
-
+						add_param(&mut current_key, &mut current_value);
 						state = State::NextParam
 					}
 					Some(b) => current_value.push(b),
 					None => break None,
 				},
+				State::Value => match bytes.as_slice().first().copied() {
+					Some(b';' | b' ' | b'\t') | None => {
+						add_param(&mut current_key, &mut current_value);
+						state = State::NextParam
+					}
+					Some(b) => {
+						bytes.next();
+						current_value.push(b)
+					}
+				},
 			}
 		}
 	}
@@ -91,6 +142,12 @@ impl Link {
 		self.params.get(b"rel".as_slice()).map(Vec::as_slice)
 	}
 
+	/// Checks if the given relation type is among those of this link.
+	pub fn has_rel(&self, rel: &[u8]) -> bool {
+		self.rel()
+			.is_some_and(|r| r.split(|b| *b == b' ').any(|r| r.eq_ignore_ascii_case(rel)))
+	}
+
 	pub fn type_(&self) -> Option<&[u8]> {
 		self.params.get(b"type".as_slice()).map(Vec::as_slice)
 	}
diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index abb9fff..9efbd95 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -175,20 +175,18 @@ impl Loader for ReqwestLoader {
 						Some(content_type) => {
 							let mut context_url = None;
 							if *content_type.media_type() != "application/ld+json" {
-								for link in response.headers().get_all(LINK).into_iter() {
-									if let Some(link) = Link::new(link) {
-										if link.rel()
-											== Some(b"http://www.w3.org/ns/json-ld#context")
-										{
-											if context_url.is_some() {
-												return Err(LoadError::new(
-													url,
-													Error::MultipleContextLinkHeaders,
-												));
-											}
-
-											context_url = Some(link.href().resolved(&url));
+								for link in
+									response.headers().get_all(LINK).iter().flat_map(Link::all)
+								{
+									if link.has_rel(b"http://www.w3.org/ns/json-ld#context") {
+										if context_url.is_some() {
+											return Err(LoadError::new(
+												url,
+												Error::MultipleContextLinkHeaders,
+											));
 										}
+
+										context_url = Some(link.href().resolved(&url));
 									}
 								}
 							}
@@ -224,16 +222,15 @@ impl Loader for ReqwestLoader {
 						}
 						None => {
 							log::debug!("no valid media type found");
-							for link in response.headers().get_all(LINK).into_iter() {
-								if let Some(link) = Link::new(link) {
-									if link.rel() == Some(b"alternate")
-										&& link.type_() == Some(b"application/ld+json")
-									{
-										log::debug!("link found");
-										url = link.href().resolved(&url);
-										redirection_number += 1;
-										continue 'next_url;
-									}
+							for link in response.headers().get_all(LINK).iter().flat_map(Link::all)
+							{
+								if link.has_rel(b"alternate")
+									&& link.type_() == Some(b"application/ld+json")
+								{
+									log::debug!("link found");
+									url = link.href().resolved(&url);
+									redirection_number += 1;
+									continue 'next_url;
 								}
 							}
 
-- 
2.43.0


From 0c721863d52907dda7d751bc1f4f3b5e3cdb0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 83/93] fix: the URL of a document is the one HTTP redirections
 led to

---
 crates/core/src/loader/reqwest/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 9efbd95..04975aa 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -165,6 +165,14 @@ impl Loader for ReqwestLoader {
 
 			match response.status() {
 				StatusCode::OK => {
+					// Relative references are relative to where HTTP redirections
+					// led.
+					if reqwest::Url::parse(url.as_str()).ok().as_ref() != Some(response.url()) {
+						if let Ok(final_url) = IriBuf::new(response.url().to_string()) {
+							url = final_url
+						}
+					}
+
 					let mut content_types = response
 						.headers()
 						.get_all(CONTENT_TYPE)
-- 
2.43.0


From 85b9c0dc37a7df2483605f2d5b9f22b5f84906ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:44 +0000
Subject: [PATCH 84/93] fix: quote the profile asked for: IRIs are no tokens

---
 crates/core/src/loader/reqwest/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/crates/core/src/loader/reqwest/mod.rs b/crates/core/src/loader/reqwest/mod.rs
index 04975aa..365a087 100644
--- a/crates/core/src/loader/reqwest/mod.rs
+++ b/crates/core/src/loader/reqwest/mod.rs
@@ -104,11 +104,7 @@ impl ReqwestLoader {
 		let mut json_ld_params = String::new();
 
 		if !options.request_profile.is_empty() {
-			json_ld_params.push_str("; profile=");
-
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push_str("; profile=\"");
 
 			for (i, p) in options.request_profile.iter().enumerate() {
 				if i > 0 {
@@ -118,9 +114,7 @@ impl ReqwestLoader {
 				json_ld_params.push_str(p.iri().as_str());
 			}
 
-			if options.request_profile.len() > 1 {
-				json_ld_params.push('"');
-			}
+			json_ld_params.push('"');
 		}
 
 		Self {
-- 
2.43.0


From a8b5d25bbcf28adf8f4cae60a5535473c4e2944d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 85/93] fix: check the types of value objects as the expansion
 algorithm does

---
 crates/expansion/src/value.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/crates/expansion/src/value.rs b/crates/expansion/src/value.rs
index 7518646..ae1e4d5 100644
--- a/crates/expansion/src/value.rs
+++ b/crates/expansion/src/value.rs
@@ -18,6 +18,9 @@ pub enum InvalidValue {
 	#[error("Invalid `@index` value")]
 	IndexValue,
 
+	#[error("Invalid `@type` value")]
+	TypeValue,
+
 	#[error("Invalid typed value")]
 	TypedValue,
 
@@ -43,6 +46,7 @@ impl InvalidValue {
 			Self::LanguageTaggedString => ErrorCode::InvalidLanguageTaggedString,
 			Self::BaseDirection => ErrorCode::InvalidBaseDirection,
 			Self::IndexValue => ErrorCode::InvalidIndexValue,
+			Self::TypeValue => ErrorCode::InvalidTypeValue,
 			Self::TypedValue => ErrorCode::InvalidTypedValue,
 			Self::ValueObject => ErrorCode::InvalidValueObject,
 			Self::ValueObjectValue => ErrorCode::InvalidValueObjectValue,
@@ -82,6 +86,7 @@ where
 		.map(|t| *t == Term::Keyword(Keyword::Json))
 		.unwrap_or(false);
 	let mut has_type = false;
+	let mut invalid_type = false;
 	let mut ty = None;
 	let mut index = None;
 	let mut language = None;
@@ -151,7 +156,7 @@ where
 			Term::Keyword(Keyword::Type) => {
 				// A value cannot have more than one type.
 				if has_type {
-					return Err(InvalidValue::TypedValue);
+					invalid_type = true;
 				}
 
 				has_type = true;
@@ -173,10 +178,13 @@ where
 							is_json = false;
 							ty = Some(expanded_ty)
 						}
-						_ => return Err(InvalidValue::TypedValue),
+						_ => invalid_type = true,
 					}
 				} else {
-					return Err(InvalidValue::TypedValue);
+					match value.as_array() {
+						Some(types) if types.iter().all(|ty| ty.is_string()) => invalid_type = true,
+						_ => return Err(InvalidValue::TypeValue),
+					}
 				}
 			}
 			Term::Keyword(Keyword::Value) => (),
@@ -188,19 +196,27 @@ where
 		}
 	}
 
+	// The result must not contain both `@type` and either `@language` or
+	// `@direction`.
+	if has_type && (language.is_some() || direction.is_some()) {
+		return Err(InvalidValue::ValueObject);
+	}
+
+	// A type that is not an IRI is an error, unless the value is null.
+	if invalid_type && !value_entry.is_null() {
+		return Err(InvalidValue::TypedValue);
+	}
+
 	// If input type is @json, set expanded value to value.
 	// If processing mode is json-ld-1.0, an invalid value object value error has
 	// been detected and processing is aborted.
-	if is_json {
+	if is_json && !invalid_type {
 		// If processing mode is json-ld-1.0, an invalid value object value error
 		// has been detected and processing is aborted.
 		if processing_mode == ProcessingMode::JsonLd1_0 {
 			return Err(InvalidValue::ValueObjectValue);
 		}
 
-		if language.is_some() || direction.is_some() {
-			return Err(InvalidValue::ValueObject);
-		}
 		return Ok(Some(Indexed::new(
 			Object::Value(Value::Json(value_entry.clone())),
 			index,
@@ -234,10 +250,6 @@ where
 	// been detected (only strings can be language-tagged) and processing is
 	// aborted.
 	if language.is_some() || direction.is_some() {
-		if ty.is_some() {
-			return Err(InvalidValue::ValueObject);
-		}
-
 		if let Literal::String(s) = result {
 			let lang = match language {
 				Some(language) => {
-- 
2.43.0


From 43a12b8f3fc497cbe04daf96e4fd5cbee88c56d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:47 +0000
Subject: [PATCH 86/93] fix: process a remote context again when it is referred
 to again

---
 crates/context-processing/src/algorithm/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/context-processing/src/algorithm/mod.rs b/crates/context-processing/src/algorithm/mod.rs
index 260cc88..543db7c 100644
--- a/crates/context-processing/src/algorithm/mod.rs
+++ b/crates/context-processing/src/algorithm/mod.rs
@@ -74,7 +74,7 @@ async fn process_context<'l: 'a, 'a, N, L, W>(
 	mut env: Environment<'a, N, L, W>,
 	active_context: &'a Context<N::Iri, N::BlankId>,
 	local_context: &'l syntax::context::Context,
-	mut remote_contexts: ProcessingStack<N::Iri>,
+	remote_contexts: ProcessingStack<N::Iri>,
 	base_url: Option<N::Iri>,
 	mut options: Options,
 ) -> ProcessingResult<'l, N::Iri, N::BlankId>
@@ -165,6 +165,10 @@ where
 				// If the document has no top-level map with an @context entry, an invalid remote
 				// context has been detected and processing is aborted.
 				// Set loaded context to the value of that entry.
+				//
+				// Only the contexts being dereferenced count: the same context may be given
+				// again once it has been processed.
+				let mut remote_contexts = remote_contexts.clone();
 				if remote_contexts.push(context_iri.clone()) {
 					let context_document = env
 						.loader
@@ -196,7 +200,7 @@ where
 						},
 						&result,
 						&loaded_context,
-						remote_contexts.clone(),
+						remote_contexts,
 						Some(document_url),
 						new_options,
 					))
-- 
2.43.0


From b4e01366e92990bfcf7573ddfe7e501fd81c0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:47 +0000
Subject: [PATCH 87/93] fix: expand @nest entries after the other entries of a
 node

---
 crates/expansion/src/node.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index 98b9c72..ca27db4 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -122,9 +122,12 @@ where
 	W: WarningHandler<N>,
 {
 	// Process the `@reverse` entries first, so that a reverse property is not
-	// mistaken for another `@reverse` entry.
-	expanded_entries
-		.sort_by_key(|ExpandedEntry(_, key, _)| *key != Term::Keyword(Keyword::Reverse));
+	// mistaken for another `@reverse` entry, and the `@nest` entries last.
+	expanded_entries.sort_by_key(|ExpandedEntry(_, key, _)| match key {
+		Term::Keyword(Keyword::Reverse) => 0,
+		Term::Keyword(Keyword::Nest) => 2,
+		_ => 1,
+	});
 
 	// For each `key` and `value` in `element`, ordered lexicographically by key
 	// if `ordered` is `true`:
-- 
2.43.0


From f052694817597b0700bded266117758ebc9003d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:11 +0000
Subject: [PATCH 88/93] fix: refuse ill-typed and repeated @language and
 @direction entries of node objects

---
 crates/expansion/src/node.rs | 40 ++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/crates/expansion/src/node.rs b/crates/expansion/src/node.rs
index ca27db4..d855c34 100644
--- a/crates/expansion/src/node.rs
+++ b/crates/expansion/src/node.rs
@@ -1,6 +1,6 @@
 use crate::{
 	expand_element, expand_iri, expand_literal, filter_top_level_item, Action, ActiveProperty,
-	Error, Expanded, ExpandedEntry, LiteralValue, Options, Warning, WarningHandler,
+	Error, Expanded, ExpandedEntry, InvalidValue, LiteralValue, Options, Warning, WarningHandler,
 };
 use contextual::WithContext;
 use indexmap::IndexSet;
@@ -9,7 +9,7 @@ use json_ld_core::{
 	object, object::value::Literal, Container, Context, Environment, Id, Indexed, IndexedObject,
 	LangString, Loader, Node, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{ContainerKind, Keyword, LenientLangTagBuf, Nullable};
+use json_ld_syntax::{ContainerKind, Direction, Keyword, LenientLangTagBuf, Nullable};
 use json_syntax::object::Entry;
 use mown::Mown;
 use rdf_types::VocabularyMut;
@@ -129,6 +129,9 @@ where
 		_ => 1,
 	});
 
+	let mut has_language = false;
+	let mut has_direction = false;
+
 	// For each `key` and `value` in `element`, ordered lexicographically by key
 	// if `ordered` is `true`:
 	for ExpandedEntry(key, expanded_key, value) in expanded_entries {
@@ -295,9 +298,38 @@ where
 						}
 					}
 					// If expanded property is @language:
-					Keyword::Language => has_value_object_entries = true,
+					Keyword::Language => {
+						// If value is not a string, an invalid language-tagged string
+						// error has been detected and processing is aborted.
+						if !value.is_string() {
+							return Err(InvalidValue::LanguageTaggedString.into());
+						}
+
+						if std::mem::replace(&mut has_language, true) {
+							return Err(Error::CollidingKeywords);
+						}
+
+						has_value_object_entries = true
+					}
 					// If expanded property is @direction:
-					Keyword::Direction => has_value_object_entries = true,
+					Keyword::Direction => {
+						// If value is neither "ltr" nor "rtl", an invalid base
+						// direction error has been detected and processing is aborted.
+						if options.processing_mode != ProcessingMode::JsonLd1_0
+							&& !value.is_null()
+							&& !value
+								.as_string()
+								.is_some_and(|s| Direction::try_from(s).is_ok())
+						{
+							return Err(InvalidValue::BaseDirection.into());
+						}
+
+						if std::mem::replace(&mut has_direction, true) {
+							return Err(Error::CollidingKeywords);
+						}
+
+						has_value_object_entries = true
+					}
 					// If expanded property is @index:
 					Keyword::Index => {
 						// The index is not one of the entries checked above.
-- 
2.43.0


From a9e33bcbb98356070af96be943039a9276d9efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:51 +0000
Subject: [PATCH 89/93] fix: a node reference with an index is not a single @id
 entry

---
 crates/compaction/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compaction/src/node.rs b/crates/compaction/src/node.rs
index eb02cba..12f81cd 100644
--- a/crates/compaction/src/node.rs
+++ b/crates/compaction/src/node.rs
@@ -34,7 +34,7 @@ where
 	// If element does not contain an @value entry, and element does not consist of
 	// a single @id entry, set active context to previous context from active context,
 	// as the scope of a term-scoped context does not apply when processing new node objects.
-	if !(node.is_empty() && node.id.is_some()) {
+	if !(node.is_empty() && node.id.is_some() && index.is_none()) {
 		// does not consist of a single @id entry
 		if let Some(previous_context) = active_context.previous_context() {
 			active_context = previous_context
-- 
2.43.0


From 81c5da1346c67a6545b0fe2906de609c06ef86c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 90/93] fix: node references in type maps, whatever the aliases
 of @id

---
 crates/compaction/src/property.rs | 40 ++++++++++++-------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/crates/compaction/src/property.rs b/crates/compaction/src/property.rs
index f1a062a..211552b 100644
--- a/crates/compaction/src/property.rs
+++ b/crates/compaction/src/property.rs
@@ -631,34 +631,24 @@ where
 							// passing `active_context`, `item_active_property` for
 							// `active_property`, and a map composed of the single
 							// entry for @id from `expanded_item` for `element`.
-							if let Some(map) = compacted_item.as_object() {
-								let id_key = compact_iri(
+							// Keys are those of the context `compacted_item` was
+							// compacted with: the one left is for @id
+							// if `expanded_item` has one.
+							let id_only = compacted_item
+								.as_object()
+								.is_some_and(|map| map.len() == 1);
+							if let Some(id) = expanded_item.id().filter(|_| id_only) {
+								let obj = Object::node(Node::with_id(id.clone()));
+								compacted_item = Box::pin(obj.compact_indexed_fragment(
 									vocabulary,
+									None,
 									active_context,
-									&Term::Keyword(Keyword::Id),
-									true,
-									false,
+									active_context,
+									Some(&item_active_property),
+									loader,
 									options,
-								)?
-								.unwrap();
-
-								if map.len() == 1
-									&& map.get_unique(id_key.as_str()).ok().unwrap().is_some()
-								{
-									let obj = Object::node(Node::with_id(
-										expanded_item.id().unwrap().clone(),
-									));
-									compacted_item = Box::pin(obj.compact_indexed_fragment(
-										vocabulary,
-										None,
-										active_context,
-										active_context,
-										Some(&item_active_property),
-										loader,
-										options,
-									))
-									.await?
-								}
+								))
+								.await?
 							}
 
 							map_key
-- 
2.43.0


From 9326b9e22f06d67b6206b847db023832db560763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 91/93] fix: relative IRIs that are keywords need ./ as much as
 those that look like one

---
 crates/compaction/src/iri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/compaction/src/iri.rs b/crates/compaction/src/iri.rs
index d3a6854..9fcef1d 100644
--- a/crates/compaction/src/iri.rs
+++ b/crates/compaction/src/iri.rs
@@ -4,7 +4,7 @@ use json_ld_core::{
 	context::inverse::{LangSelection, Selection, TypeSelection},
 	object, Container, Context, Indexed, Nullable, Object, ProcessingMode, Term, Type, Value,
 };
-use json_ld_syntax::{is_keyword, is_keyword_like};
+use json_ld_syntax::is_keyword_like;
 use rdf_types::Vocabulary;
 use std::hash::Hash;
 
@@ -506,7 +506,7 @@ where
 }
 
 fn disambiguate_keyword(s: String) -> String {
-	if is_keyword_like(&s) && !is_keyword(&s) {
+	if is_keyword_like(&s) {
 		"./".to_string() + &s
 	} else {
 		s
-- 
2.43.0


From 17c0385463ae931858ad566dfa8dbc0d4664dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:22 +0000
Subject: [PATCH 92/93] fix: the string view of a node is its identifier, blank
 or not

---
 crates/core/src/object/node/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/object/node/mod.rs b/crates/core/src/object/node/mod.rs
index 8132331..f90e995 100644
--- a/crates/core/src/object/node/mod.rs
+++ b/crates/core/src/object/node/mod.rs
@@ -260,11 +260,9 @@ impl<T, B> Node<T, B> {
 	pub fn as_str(&self) -> Option<&str>
 	where
 		T: AsRef<str>,
+		B: AsRef<str>,
 	{
-		match self.as_iri() {
-			Some(iri) => Some(iri.as_ref()),
-			None => None,
-		}
+		self.id.as_ref().map(Id::as_str)
 	}
 
 	/// Get the list of the node's types.
-- 
2.43.0


From db9b09aaa5f87a07b884406579d45a7795f79f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:50 +0000
Subject: [PATCH 93/93] fix: a negative zero is written as the canonical
 integer "0" in RDF

---
 crates/core/src/rdf/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/rdf/mod.rs b/crates/core/src/rdf/mod.rs
index 7e715aa..f13f4c4 100644
--- a/crates/core/src/rdf/mod.rs
+++ b/crates/core/src/rdf/mod.rs
@@ -281,10 +281,14 @@ impl<T: Clone> crate::object::Value<T> {
 							.unwrap_or(false);
 						let f = n.as_f64_lossy();
 
-						if n.is_i64() && !is_double {
-							(n.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
+						if let (Some(i), false) = (n.as_i64(), is_double) {
+							(i.to_string(), Some(vocabulary.insert(XSD_INTEGER)))
 						} else if f.fract() == 0.0 && f.abs() < 1e21 && !is_double {
-							(format!("{f:.0}"), Some(vocabulary.insert(XSD_INTEGER)))
+							// Adding zero gets rid of the sign of a negative zero.
+							(
+								format!("{:.0}", f + 0.0),
+								Some(vocabulary.insert(XSD_INTEGER)),
+							)
 						} else {
 							(
 								pretty_dtoa::dtoa(f, XSD_CANONICAL_FLOAT),
-- 
2.43.0

