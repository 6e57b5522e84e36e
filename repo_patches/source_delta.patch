From d0f00823d1846c94034dfdf78f38f4bfbe65eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 01/35] fix: YAMLNodeToJSON no longer panics on a null mapping
 key

---
 json/json.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/json/json.go b/json/json.go
index 5c3737e..c03f174 100644
--- a/json/json.go
+++ b/json/json.go
@@ -3,7 +3,6 @@ package json
 import (
 	"encoding/json"
 	"fmt"
-	"reflect"
 
 	"github.com/pb33f/libopenapi/orderedmap"
 	"go.yaml.in/yaml/v4"
@@ -48,7 +47,7 @@ func handleMappingNode(node *yaml.Node) (any, error) {
 			return nil, err
 		}
 
-		if reflect.TypeOf(kv).Kind() != reflect.String {
+		if _, ok := kv.(string); !ok {
 			keyData, err := json.Marshal(kv)
 			if err != nil {
 				return nil, err // unreachable code in test case, but kept for safety
-- 
2.43.0


From be1416b8c25b207f3928377b79f7eeba015de64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 02/35] fix: resolve references whose names contain '%' or '+'
 to the component they name

---
 index/find_component_direct.go | 22 ++++++++++++++++++----
 index/find_component_entry.go  | 12 ++++++------
 index/search_index.go          |  4 ++--
 index/utility_methods.go       |  2 +-
 4 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/index/find_component_direct.go b/index/find_component_direct.go
index 000c283..4c9dd6d 100644
--- a/index/find_component_direct.go
+++ b/index/find_component_direct.go
@@ -14,8 +14,11 @@ func findDirectComponent(index *SpecIndex, componentID, absoluteFilePath string)
 		return nil
 	}
 
-	normalizedComponentID := normalizeComponentLookupID(componentID)
+	return findNormalizedComponent(index, normalizeComponentLookupID(componentID), componentID, absoluteFilePath)
+}
 
+// findNormalizedComponent looks up a component by an ID whose escapes have already been decoded.
+func findNormalizedComponent(index *SpecIndex, normalizedComponentID, componentID, absoluteFilePath string) *Reference {
 	var found *Reference
 	switch {
 	case strings.HasPrefix(normalizedComponentID, "#/components/schemas/"),
@@ -56,16 +59,27 @@ func normalizeComponentLookupID(componentID string) string {
 		if i == 0 {
 			continue
 		}
+		// percent-encoding is the outer encoding of a fragment, so it is decoded first (RFC 6901, section 6).
+		seg = unescapeFragment(seg)
 		seg = strings.ReplaceAll(seg, "~1", "/")
 		seg = strings.ReplaceAll(seg, "~0", "~")
-		if strings.ContainsRune(seg, '%') {
-			seg, _ = url.QueryUnescape(seg)
-		}
 		segs[i] = seg
 	}
 	return strings.Join(segs, "/")
 }
 
+// unescapeFragment percent-decodes a reference. Unlike a query string, '+' stands for itself; text that is
+// not validly encoded is returned as it is.
+func unescapeFragment(ref string) string {
+	if strings.IndexByte(ref, '%') < 0 {
+		return ref
+	}
+	if decoded, err := url.PathUnescape(ref); err == nil {
+		return decoded
+	}
+	return ref
+}
+
 func loadSyncMapReference(collection *sync.Map, key string) *Reference {
 	if collection == nil {
 		return nil
diff --git a/index/find_component_entry.go b/index/find_component_entry.go
index 12da390..5240931 100644
--- a/index/find_component_entry.go
+++ b/index/find_component_entry.go
@@ -6,7 +6,6 @@ package index
 import (
 	"context"
 	"fmt"
-	"net/url"
 	"path/filepath"
 	"strings"
 
@@ -65,12 +64,13 @@ func (index *SpecIndex) FindComponent(ctx context.Context, componentId string) *
 // The lookup prefers direct fragment navigation and direct component maps first, and falls back to
 // JSONPath traversal for legacy or non-direct component identifiers.
 func FindComponent(_ context.Context, root *yaml.Node, componentID, absoluteFilePath string, index *SpecIndex) *Reference {
-	if strings.Contains(componentID, "%") {
-		componentID, _ = url.QueryUnescape(componentID)
-	}
+	normalizedComponentID := normalizeComponentLookupID(componentID)
+	componentID = unescapeFragment(componentID)
 
-	if fastRef := findDirectComponent(index, componentID, absoluteFilePath); fastRef != nil {
-		return fastRef
+	if index != nil && strings.HasPrefix(componentID, "#/") {
+		if fastRef := findNormalizedComponent(index, normalizedComponentID, componentID, absoluteFilePath); fastRef != nil {
+			return fastRef
+		}
 	}
 
 	if strings.HasPrefix(componentID, "#/") {
diff --git a/index/search_index.go b/index/search_index.go
index e031711..7bbe7d1 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -217,8 +217,8 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 	}
 	if strings.Contains(ref, "%") {
 		// decode the url.
-		ref, _ = url.QueryUnescape(ref)
-		refAlt, _ = url.QueryUnescape(refAlt)
+		ref = unescapeFragment(ref)
+		refAlt = unescapeFragment(refAlt)
 	}
 
 	// --- Step 3: Local index lookup ---
diff --git a/index/utility_methods.go b/index/utility_methods.go
index d201dca..7ca3a6b 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -437,7 +437,7 @@ func (index *SpecIndex) scanOperationParams(params []*yaml.Node, keyNode, pathIt
 				if ref != nil {
 					paramRef = ref
 					if strings.Contains(paramRefName, "%") {
-						paramRefName, _ = url.QueryUnescape(paramRefName)
+						paramRefName = unescapeFragment(paramRefName)
 					}
 				}
 			}
-- 
2.43.0


From a7638c4b9f0f4187a30401c8dcfd8f7dd765f35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 03/35] fix: a JSON pointer array position too large for an int
 no longer panics

---
 datamodel/low/extraction_fragment.go | 3 +++
 index/schema_id_resolve.go           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/datamodel/low/extraction_fragment.go b/datamodel/low/extraction_fragment.go
index c775b1a..dd680fb 100644
--- a/datamodel/low/extraction_fragment.go
+++ b/datamodel/low/extraction_fragment.go
@@ -73,6 +73,9 @@ func lookupFragmentSequenceValue(node *yaml.Node, segment string) *yaml.Node {
 			return nil
 		}
 		index = index*10 + int(c-'0')
+		if index >= len(node.Content) {
+			return nil
+		}
 	}
 	if index >= len(node.Content) {
 		return nil
diff --git a/index/schema_id_resolve.go b/index/schema_id_resolve.go
index 1b1328f..6bdb56d 100644
--- a/index/schema_id_resolve.go
+++ b/index/schema_id_resolve.go
@@ -296,6 +296,9 @@ func navigateToFragment(root *yaml.Node, fragment string) *yaml.Node {
 					return nil
 				}
 				idx = idx*10 + int(c-'0')
+				if idx >= len(current.Content) {
+					return nil
+				}
 			}
 			if idx < len(current.Content) {
 				current = current.Content[idx]
-- 
2.43.0


From aaf945c13a33813fe5985d0e3f31e40b7dcd551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 04/35] fix: a circular document with a dangling required
 reference no longer panics

---
 index/resolver_circular.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 836f4f4..1a16c2e 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -99,6 +99,9 @@ func (resolver *Resolver) isInfiniteCircularDependency(
 	}
 	for refDefinition := range ref.RequiredRefProperties {
 		r, _ := resolver.specIndex.SearchIndexForReference(refDefinition)
+		if r == nil {
+			continue // the reference cannot be found, which is reported on its own.
+		}
 
 		// Direct loop back to the original starting reference — infinite cycle.
 		if initialRef != nil && initialRef.FullDefinition == r.FullDefinition {
-- 
2.43.0


From f6d1a1797a4366765b575d142fdb29440962e3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 05/35] fix: circular reference journeys no longer share a
 backing array

---
 index/resolver_circular.go    | 2 +-
 index/resolver_polymorphic.go | 2 +-
 index/resolver_relatives.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 1a16c2e..a0d8600 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -30,7 +30,7 @@ func (resolver *Resolver) buildCircularReferenceResult(
 	journey []*Reference,
 	loopIndex int,
 ) *CircularReferenceResult {
-	loop := append(journey, foundDup)
+	loop := append(append([]*Reference(nil), journey...), foundDup)
 	visitedDefinitions := make(map[string]bool)
 	isInfiniteLoop, _ := resolver.isInfiniteCircularDependency(foundDup, visitedDefinitions, nil)
 
diff --git a/index/resolver_polymorphic.go b/index/resolver_polymorphic.go
index 530d836..1b9fbe8 100644
--- a/index/resolver_polymorphic.go
+++ b/index/resolver_polymorphic.go
@@ -73,7 +73,7 @@ func (resolver *Resolver) visitPolymorphicReference(
 		return
 	}
 
-	loop := append(state.journey, mappedRefs)
+	loop := append(append([]*Reference(nil), state.journey...), mappedRefs)
 	circRef := &CircularReferenceResult{
 		ParentNode:          parentNode,
 		Journey:             loop,
diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 4fee92f..df9463d 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -88,7 +88,7 @@ func (resolver *Resolver) handleRelativeDepthLimit(ref *Reference, state relativ
 			"reference", def)
 	}
 
-	loop := append(state.journey, ref)
+	loop := append(append([]*Reference(nil), state.journey...), ref)
 	circRef := &CircularReferenceResult{
 		Journey:        loop,
 		Start:          ref,
-- 
2.43.0


From 061a6da59f667bc9d6423f1e00d4ee00e12dcff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 06/35] fix: hashes of map-valued objects include the map keys
 (and Swagger response headers), so renames are not hashed as equal

---
 datamodel/low/base/discriminator.go |  4 +++-
 datamodel/low/v2/definitions.go     |  2 ++
 datamodel/low/v2/examples.go        |  4 +++-
 datamodel/low/v2/paths.go           |  4 +++-
 datamodel/low/v2/response.go        | 12 +++++++++++-
 datamodel/low/v3/callback.go        |  4 +++-
 datamodel/low/v3/components.go      |  4 +++-
 datamodel/low/v3/link.go            |  4 +++-
 datamodel/low/v3/media_type.go      | 12 +++++++++---
 datamodel/low/v3/operation.go       |  4 +++-
 datamodel/low/v3/parameter.go       |  8 ++++++--
 datamodel/low/v3/request_body.go    |  4 +++-
 datamodel/low/v3/server.go          |  4 +++-
 13 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/datamodel/low/base/discriminator.go b/datamodel/low/base/discriminator.go
index 936af14..f65a6a0 100644
--- a/datamodel/low/base/discriminator.go
+++ b/datamodel/low/base/discriminator.go
@@ -122,7 +122,9 @@ func (d *Discriminator) Hash() uint64 {
 			h.WriteString(d.PropertyName.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(d.Mapping.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(d.Mapping.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/definitions.go b/datamodel/low/v2/definitions.go
index cbc6156..0ffb48d 100644
--- a/datamodel/low/v2/definitions.go
+++ b/datamodel/low/v2/definitions.go
@@ -158,6 +158,8 @@ func (d *Definitions) Build(ctx context.Context, _, root *yaml.Node, idx *index.
 func (d *Definitions) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
 		for k := range orderedmap.SortAlpha(d.Schemas).KeysFromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(d.FindSchema(k.Value).Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/examples.go b/datamodel/low/v2/examples.go
index 6e18c58..8c23bc2 100644
--- a/datamodel/low/v2/examples.go
+++ b/datamodel/low/v2/examples.go
@@ -56,7 +56,9 @@ func (e *Examples) Build(_ context.Context, _, root *yaml.Node, _ *index.SpecInd
 // Hash will return a consistent Hash of the Examples object
 func (e *Examples) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(e.Values).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(e.Values).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/paths.go b/datamodel/low/v2/paths.go
index b484635..89d43b3 100644
--- a/datamodel/low/v2/paths.go
+++ b/datamodel/low/v2/paths.go
@@ -156,7 +156,9 @@ func (p *Paths) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 // Hash will return a consistent Hash of the Paths object
 func (p *Paths) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(p.PathItems).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.PathItems).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v2/response.go b/datamodel/low/v2/response.go
index a5bf463..cde602f 100644
--- a/datamodel/low/v2/response.go
+++ b/datamodel/low/v2/response.go
@@ -89,7 +89,17 @@ func (r *Response) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if !r.Examples.IsEmpty() {
-			for v := range orderedmap.SortAlpha(r.Examples.Value.Values).ValuesFromOldest() {
+			for k, v := range orderedmap.SortAlpha(r.Examples.Value.Values).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte(low.HASH_PIPE)
+				h.WriteString(low.GenerateHashString(v.Value))
+				h.WriteByte(low.HASH_PIPE)
+			}
+		}
+		if !r.Headers.IsEmpty() {
+			for k, v := range orderedmap.SortAlpha(r.Headers.Value).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte(low.HASH_PIPE)
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
diff --git a/datamodel/low/v3/callback.go b/datamodel/low/v3/callback.go
index 1642b37..524c666 100644
--- a/datamodel/low/v3/callback.go
+++ b/datamodel/low/v3/callback.go
@@ -104,7 +104,9 @@ func (cb *Callback) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 // Hash will return a consistent Hash of the Callback object
 func (cb *Callback) Hash() uint64 {
 	return low.WithHasher(func(h *maphash.Hash) uint64 {
-		for v := range orderedmap.SortAlpha(cb.Expression).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(cb.Expression).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/components.go b/datamodel/low/v3/components.go
index ce6dbdb..72dde2d 100644
--- a/datamodel/low/v3/components.go
+++ b/datamodel/low/v3/components.go
@@ -107,7 +107,9 @@ func (co *Components) Hash() uint64 {
 }
 
 func generateHashForObjectMap[T any](collection *orderedmap.Map[low.KeyReference[string], low.ValueReference[T]], h *maphash.Hash) {
-	for v := range orderedmap.SortAlpha(collection).ValuesFromOldest() {
+	for k, v := range orderedmap.SortAlpha(collection).FromOldest() {
+		h.WriteString(k.Value)
+		h.WriteByte(low.HASH_PIPE)
 		h.WriteString(low.GenerateHashString(v.Value))
 		h.WriteByte(low.HASH_PIPE)
 	}
diff --git a/datamodel/low/v3/link.go b/datamodel/low/v3/link.go
index 5e262c9..2be59c0 100644
--- a/datamodel/low/v3/link.go
+++ b/datamodel/low/v3/link.go
@@ -142,7 +142,9 @@ func (l *Link) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(l.Server.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(l.Parameters.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(l.Parameters.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(v.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/media_type.go b/datamodel/low/v3/media_type.go
index 122e027..08ac97f 100644
--- a/datamodel/low/v3/media_type.go
+++ b/datamodel/low/v3/media_type.go
@@ -205,15 +205,21 @@ func (mt *MediaType) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(mt.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Examples.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.Encoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.Encoding.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(mt.ItemEncoding.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index e54657d..c3eef27 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -290,7 +290,9 @@ func (o *Operation) Hash() uint64 {
 		}
 
 		// Callbacks
-		for v := range orderedmap.SortAlpha(o.Callbacks.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(o.Callbacks.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/parameter.go b/datamodel/low/v3/parameter.go
index 8cf942e..2cf8ec1 100644
--- a/datamodel/low/v3/parameter.go
+++ b/datamodel/low/v3/parameter.go
@@ -201,11 +201,15 @@ func (p *Parameter) Hash() uint64 {
 			h.WriteString(low.GenerateHashString(p.Example.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Examples.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Examples.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(p.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(p.Content.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/request_body.go b/datamodel/low/v3/request_body.go
index 344822e..24a074d 100644
--- a/datamodel/low/v3/request_body.go
+++ b/datamodel/low/v3/request_body.go
@@ -121,7 +121,9 @@ func (rb *RequestBody) Hash() uint64 {
 			low.HashBool(h, rb.Required.Value)
 			h.WriteByte(low.HASH_PIPE)
 		}
-		for v := range orderedmap.SortAlpha(rb.Content.Value).ValuesFromOldest() {
+		for k, v := range orderedmap.SortAlpha(rb.Content.Value).FromOldest() {
+			h.WriteString(k.Value)
+			h.WriteByte(low.HASH_PIPE)
 			h.WriteString(low.GenerateHashString(v.Value))
 			h.WriteByte(low.HASH_PIPE)
 		}
diff --git a/datamodel/low/v3/server.go b/datamodel/low/v3/server.go
index 0c7dc14..93bcae9 100644
--- a/datamodel/low/v3/server.go
+++ b/datamodel/low/v3/server.go
@@ -121,7 +121,9 @@ func (s *Server) Hash() uint64 {
 			h.WriteByte(low.HASH_PIPE)
 		}
 		if s.Variables.Value != nil {
-			for v := range orderedmap.SortAlpha(s.Variables.Value).ValuesFromOldest() {
+			for k, v := range orderedmap.SortAlpha(s.Variables.Value).FromOldest() {
+				h.WriteString(k.Value)
+				h.WriteByte(low.HASH_PIPE)
 				h.WriteString(low.GenerateHashString(v.Value))
 				h.WriteByte(low.HASH_PIPE)
 			}
-- 
2.43.0


From ef0edcae4ef5f021855b6517d8ce657ed7f06b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 07/35] fix: additional operations are compared with their own
 counterpart

---
 what-changed/model/path_item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index 803be6f..be5eac7 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -636,7 +636,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 					found = true
 					// compare the two operations
 					totalOps++
-					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[j]).Value,
+					go checkOperation(lPath.AdditionalOperations.Value.GetOrZero(lKeys[i]).Value,
 						rPath.AdditionalOperations.Value.GetOrZero(rKeys[j]).Value, opChan, lKeys[i].Value)
 					break
 				}
-- 
2.43.0


From 5b669aa09d8aa3798ab2f0cdc13e23fac3576ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 08/35] fix: added and removed server variables are reported as
 changes

---
 what-changed/model/server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/what-changed/model/server.go b/what-changed/model/server.go
index 86914a0..a53de60 100644
--- a/what-changed/model/server.go
+++ b/what-changed/model/server.go
@@ -79,10 +79,9 @@ func CompareServers(l, r *v3.Server) *ServerChanges {
 
 	CheckProperties(props)
 	sc := new(ServerChanges)
-	sc.PropertyChanges = NewPropertyChanges(changes)
 	sc.ServerVariableChanges = CheckMapForChanges(l.Variables.Value, r.Variables.Value,
 		&changes, v3.VariablesLabel, CompareServerVariables)
-
+	sc.PropertyChanges = NewPropertyChanges(changes)
 	sc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	sc.Server = r
 	return sc
-- 
2.43.0


From 30043e0c871dfbb34690316ed1f04cec72259196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 09/35] fix: a changed bearerFormat is reported as
 bearerFormat, not as scheme

---
 what-changed/model/security_scheme.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/security_scheme.go b/what-changed/model/security_scheme.go
index 4b6b5d4..16f7747 100644
--- a/what-changed/model/security_scheme.go
+++ b/what-changed/model/security_scheme.go
@@ -166,7 +166,7 @@ func CompareSecuritySchemes(l, r any) *SecuritySchemeChanges {
 			BreakingModified(CompSecurityScheme, PropScheme), CompSecurityScheme, PropScheme)
 
 		addPropertyCheck(&props, lSS.BearerFormat.ValueNode, rSS.BearerFormat.ValueNode,
-			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.SchemeLabel,
+			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, PropBearerFormat,
 			BreakingModified(CompSecurityScheme, PropBearerFormat), CompSecurityScheme, PropBearerFormat)
 
 		addPropertyCheck(&props, lSS.OpenIdConnectUrl.ValueNode, rSS.OpenIdConnectUrl.ValueNode,
-- 
2.43.0


From f09d2c5c877bed76ee3d547f1f002847d8c11b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:16 +0000
Subject: [PATCH 10/35] fix: GetAllChanges includes contentSchema and
 $vocabulary changes

---
 what-changed/model/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 77a497b..d1e22ea 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -183,6 +183,12 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 	if s.ExternalDocChanges != nil {
 		changes = append(changes, s.ExternalDocChanges.GetAllChanges()...)
 	}
+	if s.ContentSchemaChanges != nil {
+		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
+	}
+	if len(s.VocabularyChanges) > 0 {
+		changes = append(changes, s.VocabularyChanges...)
+	}
 	if s.XMLChanges != nil {
 		changes = append(changes, s.XMLChanges.GetAllChanges()...)
 	}
-- 
2.43.0


From a63d371ab87486a47ab298ca4c2058c76836c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 11/35] fix: comparing a Swagger document that has no paths no
 longer panics

---
 what-changed/model/paths.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/what-changed/model/paths.go b/what-changed/model/paths.go
index 2b35d36..4e4b2d2 100644
--- a/what-changed/model/paths.go
+++ b/what-changed/model/paths.go
@@ -89,6 +89,12 @@ func ComparePaths(l, r any) *PathsChanges {
 
 		lKeys := make(map[string]low.ValueReference[*v2.PathItem])
 		rKeys := make(map[string]low.ValueReference[*v2.PathItem])
+		if lPath == nil {
+			lPath = &v2.Paths{}
+		}
+		if rPath == nil {
+			rPath = &v2.Paths{}
+		}
 		for k, v := range lPath.PathItems.FromOldest() {
 			lKeys[k.Value] = v
 		}
-- 
2.43.0


From cd85a0780884d7a5cc80efcfda6873117ab6579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 12/35] fix: added and removed Swagger definitions are reported

---
 what-changed/model/document.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/what-changed/model/document.go b/what-changed/model/document.go
index 5c9263c..f6e0dc4 100644
--- a/what-changed/model/document.go
+++ b/what-changed/model/document.go
@@ -215,6 +215,7 @@ func CompareDocuments(l, r any) *DocumentChanges {
 		cc.PropertyChanges = new(PropertyChanges)
 		if n := CompareComponents(lDoc.Definitions.Value, rDoc.Definitions.Value); n != nil {
 			cc.SchemaChanges = n.SchemaChanges
+			cc.PropertyChanges.Changes = append(cc.PropertyChanges.Changes, n.Changes...)
 		}
 		if n := CompareComponents(lDoc.SecurityDefinitions.Value, rDoc.SecurityDefinitions.Value); n != nil {
 			cc.SecuritySchemeChanges = n.SecuritySchemeChanges
-- 
2.43.0


From 70cae9b5217ced55bf676a5e98d2cd5a4bedcbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 13/35] fix: breaking changes to a schema's external docs are
 counted

---
 what-changed/model/schema.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index d1e22ea..3c9d809 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -304,6 +304,9 @@ func (s *SchemaChanges) TotalBreakingChanges() int {
 		return 0
 	}
 	t := s.PropertyChanges.TotalBreakingChanges()
+	if s.ExternalDocChanges != nil {
+		t += s.ExternalDocChanges.TotalBreakingChanges()
+	}
 	if s.DiscriminatorChanges != nil {
 		t += s.DiscriminatorChanges.TotalBreakingChanges()
 	}
-- 
2.43.0


From f1cced109fc041e4f3176a5bca47a76b062d5b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 14/35] fix: changes for added operations, components and
 removed licenses carry the object

---
 what-changed/model/document.go  |  2 +-
 what-changed/model/info.go      |  2 +-
 what-changed/model/path_item.go | 28 ++++++++++++++--------------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/what-changed/model/document.go b/what-changed/model/document.go
index f6e0dc4..00e37f9 100644
--- a/what-changed/model/document.go
+++ b/what-changed/model/document.go
@@ -282,7 +282,7 @@ func CompareDocuments(l, r any) *DocumentChanges {
 		}
 		if lDoc.Components.IsEmpty() && !rDoc.Components.IsEmpty() {
 			CreateChange(&changes, PropertyAdded, v3.ComponentsLabel,
-				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, lDoc.Components.Value)
+				nil, rDoc.Components.ValueNode, BreakingAdded(CompComponents, ""), nil, rDoc.Components.Value)
 		}
 
 		// compare servers
diff --git a/what-changed/model/info.go b/what-changed/model/info.go
index b042ed9..f9730eb 100644
--- a/what-changed/model/info.go
+++ b/what-changed/model/info.go
@@ -125,7 +125,7 @@ func CompareInfo(l, r *base.Info) *InfoChanges {
 		}
 		if l.License.Value != nil && r.License.Value == nil {
 			CreateChange(&changes, ObjectRemoved, v3.LicenseLabel,
-				l.License.ValueNode, nil, BreakingRemoved(CompInfo, PropLicense), r.License.Value, nil)
+				l.License.ValueNode, nil, BreakingRemoved(CompInfo, PropLicense), l.License.Value, nil)
 		}
 	}
 
diff --git a/what-changed/model/path_item.go b/what-changed/model/path_item.go
index be5eac7..65f08ff 100644
--- a/what-changed/model/path_item.go
+++ b/what-changed/model/path_item.go
@@ -261,7 +261,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Put.IsEmpty() && !rPath.Put.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PutLabel,
-			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, lPath.Put.Value)
+			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, rPath.Put.Value)
 	}
 
 	// post
@@ -275,7 +275,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Post.IsEmpty() && !rPath.Post.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PostLabel,
-			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, lPath.Post.Value)
+			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, rPath.Post.Value)
 	}
 
 	// delete
@@ -289,7 +289,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Delete.IsEmpty() && !rPath.Delete.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.DeleteLabel,
-			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, lPath.Delete.Value)
+			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, rPath.Delete.Value)
 	}
 
 	// options
@@ -303,7 +303,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Options.IsEmpty() && !rPath.Options.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.OptionsLabel,
-			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, lPath.Options.Value)
+			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, rPath.Options.Value)
 	}
 
 	// head
@@ -317,7 +317,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Head.IsEmpty() && !rPath.Head.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.HeadLabel,
-			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, lPath.Head.Value)
+			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, rPath.Head.Value)
 	}
 
 	// patch
@@ -331,7 +331,7 @@ func compareSwaggerPathItem(lPath, rPath *v2.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Patch.IsEmpty() && !rPath.Patch.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PatchLabel,
-			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, lPath.Patch.Value)
+			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, rPath.Patch.Value)
 	}
 
 	// parameters
@@ -493,7 +493,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Get.IsEmpty() && !rPath.Get.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.GetLabel,
-			nil, rPath.Get.ValueNode, BreakingAdded(CompPathItem, PropGet), nil, lPath.Get.Value)
+			nil, rPath.Get.ValueNode, BreakingAdded(CompPathItem, PropGet), nil, rPath.Get.Value)
 	}
 
 	// put
@@ -507,7 +507,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Put.IsEmpty() && !rPath.Put.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PutLabel,
-			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, lPath.Put.Value)
+			nil, rPath.Put.ValueNode, BreakingAdded(CompPathItem, PropPut), nil, rPath.Put.Value)
 	}
 
 	// post
@@ -521,7 +521,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Post.IsEmpty() && !rPath.Post.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PostLabel,
-			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, lPath.Post.Value)
+			nil, rPath.Post.ValueNode, BreakingAdded(CompPathItem, PropPost), nil, rPath.Post.Value)
 	}
 
 	// delete
@@ -535,7 +535,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Delete.IsEmpty() && !rPath.Delete.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.DeleteLabel,
-			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, lPath.Delete.Value)
+			nil, rPath.Delete.ValueNode, BreakingAdded(CompPathItem, PropDelete), nil, rPath.Delete.Value)
 	}
 
 	// options
@@ -549,7 +549,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Options.IsEmpty() && !rPath.Options.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.OptionsLabel,
-			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, lPath.Options.Value)
+			nil, rPath.Options.ValueNode, BreakingAdded(CompPathItem, PropOptions), nil, rPath.Options.Value)
 	}
 
 	// head
@@ -563,7 +563,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Head.IsEmpty() && !rPath.Head.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.HeadLabel,
-			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, lPath.Head.Value)
+			nil, rPath.Head.ValueNode, BreakingAdded(CompPathItem, PropHead), nil, rPath.Head.Value)
 	}
 
 	// patch
@@ -577,7 +577,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Patch.IsEmpty() && !rPath.Patch.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.PatchLabel,
-			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, lPath.Patch.Value)
+			nil, rPath.Patch.ValueNode, BreakingAdded(CompPathItem, PropPatch), nil, rPath.Patch.Value)
 	}
 
 	// trace
@@ -591,7 +591,7 @@ func compareOpenAPIPathItem(lPath, rPath *v3.PathItem, changes *[]*Change, pc *P
 	}
 	if lPath.Trace.IsEmpty() && !rPath.Trace.IsEmpty() {
 		CreateChange(changes, PropertyAdded, v3.TraceLabel,
-			nil, rPath.Trace.ValueNode, BreakingAdded(CompPathItem, PropTrace), nil, lPath.Trace.Value)
+			nil, rPath.Trace.ValueNode, BreakingAdded(CompPathItem, PropTrace), nil, rPath.Trace.Value)
 	}
 
 	// query
-- 
2.43.0


From 374a19648c39dea8a8c731f4bd9458e7015512b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 15/35] fix: breaking changes to a tag's external docs are
 counted

---
 what-changed/model/tags.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/tags.go b/what-changed/model/tags.go
index d839c40..2067e7a 100644
--- a/what-changed/model/tags.go
+++ b/what-changed/model/tags.go
@@ -49,7 +49,11 @@ func (t *TagChanges) TotalChanges() int {
 
 // TotalBreakingChanges returns the number of breaking changes made by Tags
 func (t *TagChanges) TotalBreakingChanges() int {
-	return t.PropertyChanges.TotalBreakingChanges()
+	c := t.PropertyChanges.TotalBreakingChanges()
+	if t.ExternalDocs != nil {
+		c += t.ExternalDocs.TotalBreakingChanges()
+	}
+	return c
 }
 
 // CompareTags will compare a left (original) and a right (new) slice of ValueReference nodes for
-- 
2.43.0


From 738adbf4353d12b92dc8ef151a9bc3a70da88a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 16/35] fix: added and modified Swagger examples carry the new
 value

---
 what-changed/model/examples.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/what-changed/model/examples.go b/what-changed/model/examples.go
index c271c27..fa67b28 100644
--- a/what-changed/model/examples.go
+++ b/what-changed/model/examples.go
@@ -68,7 +68,7 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		}
 		CreateChange(&changes, Modified, k,
 			lValues[k].GetValueNode(), rValues[k].GetValueNode(), false,
-			lValues[k].GetValue(), lValues[k].GetValue())
+			lValues[k].GetValue(), rValues[k].GetValue())
 
 	}
 
@@ -77,8 +77,8 @@ func CompareExamplesV2(l, r *v2.Examples) *ExamplesChanges {
 		lhash := lHashes[k]
 		if lhash == "" {
 			CreateChange(&changes, ObjectAdded, k,
-				nil, lValues[k].GetValueNode(), false,
-				nil, lValues[k].GetValue())
+				nil, rValues[k].GetValueNode(), false,
+				nil, rValues[k].GetValue())
 			continue
 		}
 	}
-- 
2.43.0


From 7c51155dfb596698e8ca3e2db8ede243b707d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 17/35] fix: rules for an example tell its addition from its
 removal, and cover schemas

---
 what-changed/model/comparison_functions.go | 9 +++++++++
 what-changed/model/header.go               | 9 ++-------
 what-changed/model/media_type.go           | 9 ++-------
 what-changed/model/schema.go               | 5 +----
 4 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 27c0558..d667fe2 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -16,6 +16,7 @@ import (
 	"github.com/pb33f/libopenapi/utils"
 
 	"github.com/pb33f/libopenapi/datamodel/low"
+	v3 "github.com/pb33f/libopenapi/datamodel/low/v3"
 	"go.yaml.in/yaml/v4"
 )
 
@@ -359,6 +360,14 @@ func CheckPropertyAdditionOrRemovalWithEncoding[T any](l, r *yaml.Node,
 	checkForAdditionInternal(l, r, label, changes, breaking, orig, new, true)
 }
 
+// checkExample checks an example for additions, removals and modifications with encoding, using the configured
+// breaking rules for the supplied component and property.
+func checkExample[T any](l, r *yaml.Node, changes *[]*Change, orig, new T, component, property string) {
+	checkForRemovalInternal(l, r, v3.ExampleLabel, changes, BreakingRemoved(component, property), orig, new, true)
+	checkForAdditionInternal(l, r, v3.ExampleLabel, changes, BreakingAdded(component, property), orig, new, true)
+	checkForModificationInternal(l, r, v3.ExampleLabel, changes, BreakingModified(component, property), orig, new, true)
+}
+
 // CheckForRemovalWithEncoding checks for removals with YAML encoding.
 func CheckForRemovalWithEncoding[T any](l, r *yaml.Node, label string, changes *[]*Change, breaking bool, orig, new T) {
 	checkForRemovalInternal(l, r, label, changes, breaking, orig, new, true)
diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index c59a5a1..09cef52 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -116,13 +116,8 @@ func addOpenAPIHeaderProperties(left, right low.OpenAPIHeader, changes *[]*Chang
 		BreakingModified(CompHeader, PropExplode), CompHeader, PropExplode)
 
 	// example
-	CheckPropertyAdditionOrRemovalWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes,
-		BreakingAdded(CompHeader, PropExample) || BreakingRemoved(CompHeader, PropExample),
-		left.GetExample(), right.GetExample())
-	CheckForModificationWithEncoding(left.GetExample().ValueNode, right.GetExample().ValueNode,
-		v3.ExampleLabel, changes, BreakingModified(CompHeader, PropExample),
-		left.GetExample(), right.GetExample())
+	checkExample(left.GetExample().ValueNode, right.GetExample().ValueNode, changes,
+		left.GetExample(), right.GetExample(), CompHeader, PropExample)
 
 	// deprecated
 	addPropertyCheck(&props, left.GetDeprecated().ValueNode, right.GetDeprecated().ValueNode,
diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 3ab5427..23fba66 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -116,13 +116,8 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes,
-		BreakingAdded(CompMediaType, PropExample) || BreakingRemoved(CompMediaType, PropExample),
-		l.Example.Value, r.Example.Value)
-	CheckForModificationWithEncoding(l.Example.ValueNode, r.Example.ValueNode,
-		v3.ExampleLabel, &changes, BreakingModified(CompMediaType, PropExample),
-		l.Example.Value, r.Example.Value)
+	checkExample(l.Example.ValueNode, r.Example.ValueNode, &changes,
+		l.Example.Value, r.Example.Value, CompMediaType, PropExample)
 
 	CheckProperties(props)
 
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 3c9d809..cc834bc 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1346,10 +1346,7 @@ func checkSchemaPropertyChanges(
 		rnv = rSchema.Example.ValueNode
 	}
 	// Example
-	CheckPropertyAdditionOrRemovalWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
-	CheckForModificationWithEncoding(lnv, rnv,
-		v3.ExampleLabel, changes, false, lSchema, rSchema)
+	checkExample(lnv, rnv, changes, lSchema, rSchema, CompSchema, PropExample)
 	lnv = nil
 	rnv = nil
 
-- 
2.43.0


From 0fbe5d667c747e6b6f1c1cc7494a486fade79f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 18/35] fix: the rules for callbacks and itemEncoding are
 honoured

---
 what-changed/model/media_type.go | 4 ++--
 what-changed/model/operation.go  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/what-changed/model/media_type.go b/what-changed/model/media_type.go
index 23fba66..993a91f 100644
--- a/what-changed/model/media_type.go
+++ b/what-changed/model/media_type.go
@@ -156,8 +156,8 @@ func CompareMediaTypes(l, r *v3.MediaType) *MediaTypeChanges {
 	}
 
 	// itemEncoding
-	mc.ItemEncodingChanges = CheckMapForChanges(l.ItemEncoding.Value, r.ItemEncoding.Value,
-		&changes, v3.ItemEncodingLabel, CompareEncoding)
+	mc.ItemEncodingChanges = CheckMapForChangesWithRules(l.ItemEncoding.Value, r.ItemEncoding.Value,
+		&changes, v3.ItemEncodingLabel, CompareEncoding, CompMediaType, PropItemEncoding)
 
 	mc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	mc.PropertyChanges = NewPropertyChanges(changes)
diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 6643623..990b8d4 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -429,10 +429,10 @@ func CompareOperations(l, r any) *OperationChanges {
 				rOperation.RequestBody.Value)
 		}
 
-		// callbacks - use CheckMapForChangesWithNilSupport to properly populate CallbackChanges
+		// callbacks - use CheckMapForChangesWithNilSupportAndRules to properly populate CallbackChanges
 		// for added/removed callbacks, enabling proper tree hierarchy rendering
-		oc.CallbackChanges = CheckMapForChangesWithNilSupport(lOperation.Callbacks.Value, rOperation.Callbacks.Value,
-			&changes, v3.CallbacksLabel, CompareCallback)
+		oc.CallbackChanges = CheckMapForChangesWithNilSupportAndRules(lOperation.Callbacks.Value, rOperation.Callbacks.Value,
+			&changes, v3.CallbacksLabel, CompareCallback, CompOperation, PropCallbacks)
 
 		// servers
 		oc.ServerChanges = checkServers(lOperation.Servers, rOperation.Servers, CompOperation, PropServers)
-- 
2.43.0


From 125ffaaf33d93c75b408182d094574a06345db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 19/35] fix: removed header items are labelled items

---
 what-changed/model/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index 09cef52..2e18a95 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -255,7 +255,7 @@ func CompareHeaders(l, r any) *HeaderChanges {
 				rHeader.Items.ValueNode, BreakingAdded(CompHeader, PropItems), nil, rHeader.Items.Value)
 		}
 		if !lHeader.Items.IsEmpty() && rHeader.Items.IsEmpty() {
-			CreateChange(&changes, ObjectRemoved, v3.SchemaLabel, lHeader.Items.ValueNode,
+			CreateChange(&changes, ObjectRemoved, v3.ItemsLabel, lHeader.Items.ValueNode,
 				nil, BreakingRemoved(CompHeader, PropItems), lHeader.Items.Value, nil)
 		}
 		hc.ExtensionChanges = CompareExtensions(lHeader.Extensions, rHeader.Extensions)
-- 
2.43.0


From 2afd98100c12b2f6501869a00c93a07888b0e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:25 +0000
Subject: [PATCH 20/35] fix: the rules for operation parameters are honoured in
 Swagger documents

---
 what-changed/model/operation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 990b8d4..0fabe17 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -263,7 +263,8 @@ func CompareOperations(l, r any) *OperationChanges {
 			for n := range rv {
 				if _, ok := lv[n]; !ok {
 					CreateChange(&changes, ObjectAdded, v3.ParametersLabel,
-						nil, rv[n].Name.ValueNode, rv[n].Required.Value, nil,
+						nil, rv[n].Name.ValueNode,
+						BreakingAdded(CompOperation, PropParameters) || rv[n].Required.Value, nil,
 						rv[n])
 				}
 			}
@@ -271,12 +272,12 @@ func CompareOperations(l, r any) *OperationChanges {
 		}
 		if !lParamsUntyped.IsEmpty() && rParamsUntyped.IsEmpty() {
 			CreateChange(&changes, PropertyRemoved, v3.ParametersLabel,
-				lParamsUntyped.ValueNode, nil, true, lParamsUntyped.Value,
+				lParamsUntyped.ValueNode, nil, BreakingRemoved(CompOperation, PropParameters), lParamsUntyped.Value,
 				nil)
 		}
 		if lParamsUntyped.IsEmpty() && !rParamsUntyped.IsEmpty() {
 			rParams := rParamsUntyped.Value.([]low.ValueReference[*v2.Parameter])
-			breaking := false
+			breaking := BreakingAdded(CompOperation, PropParameters)
 			for i := range rParams {
 				if rParams[i].Value.Required.Value {
 					breaking = true
-- 
2.43.0


From 96e320d5a0a5737a39898f45811898194707b647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 21/35] fix: the rules for a header's schema are honoured

---
 what-changed/model/header.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index 2e18a95..99ec5e6 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -275,9 +275,17 @@ func CompareHeaders(l, r any) *HeaderChanges {
 		props = append(props, addOpenAPIHeaderProperties(lHeader, rHeader, &changes)...)
 
 		// header
-		if !lHeader.Schema.IsEmpty() || !rHeader.Schema.IsEmpty() {
+		if !lHeader.Schema.IsEmpty() && !rHeader.Schema.IsEmpty() {
 			hc.SchemaChanges = CompareSchemas(lHeader.Schema.Value, rHeader.Schema.Value)
 		}
+		if !lHeader.Schema.IsEmpty() && rHeader.Schema.IsEmpty() {
+			CreateChange(&changes, ObjectRemoved, v3.SchemaLabel, lHeader.Schema.ValueNode,
+				nil, BreakingRemoved(CompHeader, PropSchema), lHeader.Schema.Value, nil)
+		}
+		if lHeader.Schema.IsEmpty() && !rHeader.Schema.IsEmpty() {
+			CreateChange(&changes, ObjectAdded, v3.SchemaLabel, nil,
+				rHeader.Schema.ValueNode, BreakingAdded(CompHeader, PropSchema), nil, rHeader.Schema.Value)
+		}
 
 		// examples
 		hc.ExamplesChanges = CheckExampleMapForChangesWithRules(lHeader.Examples.Value, rHeader.Examples.Value,
-- 
2.43.0


From e86eea82fab0042f623a63db840d358a10336ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:04 +0000
Subject: [PATCH 22/35] fix: a field absent from an object is not taken from a
 nested object

---
 datamodel/low/base/example.go | 6 +++---
 datamodel/low/v2/header.go    | 2 +-
 datamodel/low/v2/items.go     | 2 +-
 datamodel/low/v2/parameter.go | 2 +-
 datamodel/low/v3/header.go    | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/datamodel/low/base/example.go b/datamodel/low/base/example.go
index f6b8107..4d276f4 100644
--- a/datamodel/low/base/example.go
+++ b/datamodel/low/base/example.go
@@ -108,9 +108,9 @@ func (ex *Example) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	ex.context = ctx
 	ex.index = idx
 
-	_, ln, vn := utils.FindKeyNodeFull(ValueLabel, root.Content)
-	_, dataLn, dataVn := utils.FindKeyNodeFull(DataValueLabel, root.Content)
-	_, serializedLn, serializedVn := utils.FindKeyNodeFull(SerializedValueLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(ValueLabel, root.Content)
+	_, dataLn, dataVn := utils.FindKeyNodeFullTop(DataValueLabel, root.Content)
+	_, serializedLn, serializedVn := utils.FindKeyNodeFullTop(SerializedValueLabel, root.Content)
 
 	if vn != nil {
 		ex.Value = low.NodeReference[*yaml.Node]{
diff --git a/datamodel/low/v2/header.go b/datamodel/low/v2/header.go
index 890d6dd..6910c5d 100644
--- a/datamodel/low/v2/header.go
+++ b/datamodel/low/v2/header.go
@@ -62,7 +62,7 @@ func (h *Header) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecI
 	}
 	h.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		h.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/items.go b/datamodel/low/v2/items.go
index 279fc85..c84c410 100644
--- a/datamodel/low/v2/items.go
+++ b/datamodel/low/v2/items.go
@@ -127,7 +127,7 @@ func (i *Items) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 	}
 	i.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		i.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/parameter.go b/datamodel/low/v2/parameter.go
index e38aaf6..43bef32 100644
--- a/datamodel/low/v2/parameter.go
+++ b/datamodel/low/v2/parameter.go
@@ -112,7 +112,7 @@ func (p *Parameter) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 	}
 	p.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		p.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index 02929e2..f50b458 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -151,7 +151,7 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 
 	low.ExtractExtensionNodes(ctx, h.Extensions, h.Nodes)
 	// handle example if set.
-	_, expLabel, expNode := utils.FindKeyNodeFull(base.ExampleLabel, root.Content)
+	_, expLabel, expNode := utils.FindKeyNodeFullTop(base.ExampleLabel, root.Content)
 	if expNode != nil {
 		h.Example = low.NodeReference[*yaml.Node]{
 			Value:     expNode,
-- 
2.43.0


From f084fa3dde8a73062fe1657b97597fb6014fc7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 23/35] fix: objects and maps are built from the fields of the
 object itself

---
 datamodel/low/base/schema.go          |  2 +-
 datamodel/low/extraction_functions.go | 14 ++++++++++++--
 datamodel/low/v3/operation.go         |  2 +-
 datamodel/low/v3/server.go            |  2 +-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/datamodel/low/base/schema.go b/datamodel/low/base/schema.go
index 4b18f66..acf660d 100644
--- a/datamodel/low/base/schema.go
+++ b/datamodel/low/base/schema.go
@@ -159,7 +159,7 @@ func ExtractSchema(ctx context.Context, root *yaml.Node, idx *index.SpecIndex) (
 		return extractSchemaProxy(ctx, idx, refLabel, root, errStr)
 	}
 
-	_, schLabel, schNode := utils.FindKeyNodeFull(SchemaLabel, root.Content)
+	_, schLabel, schNode := utils.FindKeyNodeFullTop(SchemaLabel, root.Content)
 	if schNode != nil {
 		return extractSchemaProxy(ctx, idx, schLabel, schNode, errStr)
 	}
diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 222aeec..79d5e0a 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -482,7 +482,7 @@ func ExtractObject[T Buildable[N], N any](ctx context.Context, label string, roo
 			}
 		}
 	} else {
-		_, ln, vn = findExtractLabelNode(label, root)
+		_, ln, vn = findOwnLabelNode(label, root)
 		if vn != nil {
 			if h, _, rVal := utils.IsNodeRefValue(vn); h {
 				ref, fIdx, lerr, nCtx := LocateRefNodeWithContext(ctx, vn, idx)
@@ -873,6 +873,16 @@ type buildInput struct {
 	value *yaml.Node
 }
 
+// findOwnLabelNode finds a field of an object. A mapping is searched for its own keys only: a key of a nested object is
+// not a field of this one.
+func findOwnLabelNode(label string, root *yaml.Node) (keyNode *yaml.Node, labelNode *yaml.Node, valueNode *yaml.Node) {
+	root = utils.NodeAlias(root)
+	if root != nil && utils.IsNodeMap(root) {
+		return utils.FindKeyNodeFullTop(label, root.Content)
+	}
+	return findExtractLabelNode(label, root)
+}
+
 func findExtractLabelNode(label string, root *yaml.Node) (keyNode *yaml.Node, labelNode *yaml.Node, valueNode *yaml.Node) {
 	root = utils.NodeAlias(root)
 	if root == nil {
@@ -951,7 +961,7 @@ func ExtractMapExtensions[PT Buildable[N], N any](
 				root.Content[1].Value)
 		}
 	} else {
-		_, labelNode, valueNode = findExtractLabelNode(label, root)
+		_, labelNode, valueNode = findOwnLabelNode(label, root)
 		valueNode = utils.NodeAlias(valueNode)
 		if valueNode != nil {
 			if h, _, _ := utils.IsNodeRefValue(valueNode); h {
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index c3eef27..5ebc90c 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -133,7 +133,7 @@ func (o *Operation) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	o.RequestBody = rBody
 
 	// extract tags, but only extract nodes, the model has already been built
-	k, v := utils.FindKeyNode(TagsLabel, root.Content)
+	_, k, v := utils.FindKeyNodeFullTop(TagsLabel, root.Content)
 	if k != nil && v != nil {
 		o.Nodes.Store(k.Line, k)
 		low.MergeRecursiveNodesIfLineAbsent(o.Nodes, v)
diff --git a/datamodel/low/v3/server.go b/datamodel/low/v3/server.go
index 93bcae9..b30537e 100644
--- a/datamodel/low/v3/server.go
+++ b/datamodel/low/v3/server.go
@@ -69,7 +69,7 @@ func (s *Server) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 
 	low.ExtractExtensionNodes(ctx, s.Extensions, s.Nodes)
 
-	kn, vars := utils.FindKeyNode(VariablesLabel, root.Content)
+	_, kn, vars := utils.FindKeyNodeFullTop(VariablesLabel, root.Content)
 	if vars == nil {
 		return nil
 	}
-- 
2.43.0


From 09b64d22740bb8e6aaec5bd6f6503f7660032674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:15 +0000
Subject: [PATCH 24/35] fix: the kind and version of a document are read from
 its own keys

---
 datamodel/spec_info.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/datamodel/spec_info.go b/datamodel/spec_info.go
index ab947fd..6087921 100644
--- a/datamodel/spec_info.go
+++ b/datamodel/spec_info.go
@@ -210,9 +210,14 @@ func extractSpecInfoInternal(spec []byte, bypass bool, skipJSON bool) (*SpecInfo
 
 	specInfo.RootNode = &parsedSpec
 
-	_, openAPI3 := utils.FindKeyNode(utils.OpenApi3, parsedSpec.Content)
-	_, openAPI2 := utils.FindKeyNode(utils.OpenApi2, parsedSpec.Content)
-	_, asyncAPI := utils.FindKeyNode(utils.AsyncApi, parsedSpec.Content)
+	// only the keys of the document itself count: the same words may occur as values.
+	var rootContent []*yaml.Node
+	if len(parsedSpec.Content) > 0 && utils.IsNodeMap(parsedSpec.Content[0]) {
+		rootContent = parsedSpec.Content[0].Content
+	}
+	_, _, openAPI3 := utils.FindKeyNodeFullTop(utils.OpenApi3, rootContent)
+	_, _, openAPI2 := utils.FindKeyNodeFullTop(utils.OpenApi2, rootContent)
+	_, _, asyncAPI := utils.FindKeyNodeFullTop(utils.AsyncApi, rootContent)
 
 	// validate document structure without building the JSON view: the root must be a
 	// mapping, YAML mappings must not contain duplicate keys (matching the yaml
@@ -277,7 +282,7 @@ func extractSpecInfoInternal(spec []byte, bypass bool, skipJSON bool) (*SpecInfo
 			specInfo.APISchema = OpenAPI31SchemaData
 			specInfo.SpecFormat = OAS31
 			// extract $self field for OpenAPI 3.1+ (might be used as forward-compatible feature)
-			_, selfNode := utils.FindKeyNode("$self", parsedSpec.Content)
+			_, _, selfNode := utils.FindKeyNodeFullTop("$self", rootContent)
 			if selfNode != nil && selfNode.Value != "" {
 				specInfo.Self = selfNode.Value
 			}
@@ -286,7 +291,7 @@ func extractSpecInfoInternal(spec []byte, bypass bool, skipJSON bool) (*SpecInfo
 			specInfo.APISchema = OpenAPI32SchemaData
 			specInfo.SpecFormat = OAS32
 			// extract $self field for OpenAPI 3.2+
-			_, selfNode := utils.FindKeyNode("$self", parsedSpec.Content)
+			_, _, selfNode := utils.FindKeyNodeFullTop("$self", rootContent)
 			if selfNode != nil && selfNode.Value != "" {
 				specInfo.Self = selfNode.Value
 			}
-- 
2.43.0


From ceded4fb73ed63f837feb48b927bb141332859e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:17 +0000
Subject: [PATCH 25/35] fix: document fields other than paths are read from the
 document itself only

---
 datamodel/low/v3/create_document.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 90e228e..aeb26ff 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -137,7 +137,7 @@ func CreateDocumentFromConfig(info *datamodel.SpecInfo, config *datamodel.Docume
 func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfiguration) (*Document, error) {
 	rootNode := utils.NodeAlias(info.RootNode.Content[0])
 	topNodes := collectDocumentTopLevelNodes(rootNode)
-	versionNodeRef := selectDocumentNode(rootNode, topNodes.version, OpenAPILabel, false)
+	versionNodeRef := selectDocumentNode(rootNode, topNodes.version, OpenAPILabel, true)
 	labelNode, versionNode := versionNodeRef.key, versionNodeRef.value
 	var version low.NodeReference[string]
 	if versionNode == nil {
@@ -311,7 +311,7 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	low.ExtractExtensionNodes(ctx, doc.Extensions, doc.Nodes)
 
 	// if set, extract jsonSchemaDialect (3.1)
-	dialectRef := selectDocumentNode(rootNode, topNodes.jsonSchemaDialect, JSONSchemaDialectLabel, false)
+	dialectRef := selectDocumentNode(rootNode, topNodes.jsonSchemaDialect, JSONSchemaDialectLabel, true)
 	dialectLabel, dialectNode := dialectRef.key, dialectRef.value
 	if dialectNode != nil {
 		doc.JsonSchemaDialect = low.NodeReference[string]{
@@ -320,7 +320,7 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	}
 
 	// if set, extract $self (3.2)
-	selfRef := selectDocumentNode(rootNode, topNodes.self, SelfLabel, false)
+	selfRef := selectDocumentNode(rootNode, topNodes.self, SelfLabel, true)
 	selfLabel, selfNode := selfRef.key, selfRef.value
 	if selfNode != nil {
 		doc.Self = low.NodeReference[string]{
@@ -413,7 +413,7 @@ func extractComponents(ctx context.Context, root *yaml.Node, nodes documentTopLe
 }
 
 func extractServers(ctx context.Context, root *yaml.Node, nodes documentTopLevelNodes, doc *Document, idx *index.SpecIndex) error {
-	nodeRef := selectDocumentNode(root, nodes.servers, ServersLabel, false)
+	nodeRef := selectDocumentNode(root, nodes.servers, ServersLabel, true)
 	ln, vn := nodeRef.key, nodeRef.value
 	if vn != nil {
 		if utils.IsNodeArray(vn) {
@@ -440,7 +440,7 @@ func extractServers(ctx context.Context, root *yaml.Node, nodes documentTopLevel
 }
 
 func extractTags(ctx context.Context, root *yaml.Node, nodes documentTopLevelNodes, doc *Document, idx *index.SpecIndex) error {
-	nodeRef := selectDocumentNode(root, nodes.tags, base.TagsLabel, false)
+	nodeRef := selectDocumentNode(root, nodes.tags, base.TagsLabel, true)
 	ln, vn := nodeRef.key, nodeRef.value
 	if vn != nil {
 		if utils.IsNodeArray(vn) {
-- 
2.43.0


From 27272611fb10a9c26b8d2c181b4736b523c33203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:44 +0000
Subject: [PATCH 26/35] fix: zero values that a document spells out are kept
 when it is rendered

---
 datamodel/high/node_builder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index b282dc0..1103d71 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -66,6 +66,12 @@ func originalFloatLexeme(value float64, lowValue any) (string, bool) {
 	return valueNode.Value, true
 }
 
+// hasSourceNode is true if the low-level value was read from a document: a zero value that was written there is kept.
+func hasSourceNode(lowValue any) bool {
+	vnut, ok := lowValue.(low.HasValueNodeUntyped)
+	return ok && vnut.GetValueNode() != nil
+}
+
 // NewNodeBuilder will create a new NodeBuilder instance, this is the only way to create a NodeBuilder.
 // The function accepts a high level object and a low level object (need to be siblings/same type).
 //
@@ -615,7 +621,7 @@ func (n *NodeBuilder) AddYAMLNode(parent *yaml.Node, entry *nodes.NodeEntry) *ya
 					valueNode = utils.CreateBoolNode("true")
 					valueNode.Line = line
 				} else {
-					if entry.RenderZero {
+					if entry.RenderZero || hasSourceNode(entry.LowValue) {
 						valueNode = utils.CreateBoolNode("false")
 						valueNode.Line = line
 					}
@@ -623,14 +629,14 @@ func (n *NodeBuilder) AddYAMLNode(parent *yaml.Node, entry *nodes.NodeEntry) *ya
 			}
 			if b, bok := value.(*int64); bok {
 				encodeSkip = true
-				if *b != 0 || entry.RenderZero {
+				if *b != 0 || entry.RenderZero || hasSourceNode(entry.LowValue) {
 					valueNode = utils.CreateIntNode(strconv.Itoa(int(*b)))
 					valueNode.Line = line
 				}
 			}
 			if b, bok := value.(*float64); bok {
 				encodeSkip = true
-				if *b != 0 || entry.RenderZero {
+				if *b != 0 || entry.RenderZero || hasSourceNode(entry.LowValue) {
 					formatFloat := strconv.FormatFloat(*b, 'f', -1, 64)
 					if original, ok := originalFloatLexeme(*b, entry.LowValue); ok {
 						formatFloat = original
-- 
2.43.0


From 8e2da77e7c12b651587f23f483c9207001449c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 27/35] fix: values of a path item that begin with x- or read
 'parameters' no longer hide the operation that follows; errors in additional
 operations are returned

---
 datamodel/low/v3/path_item.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index 5d7146a..f464377 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -218,7 +218,6 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	p.context = ctx
 
 	low.ExtractExtensionNodes(ctx, p.Extensions, p.Nodes)
-	skip := false
 	var currentNode *yaml.Node
 
 	ops := make([]low.NodeReference[*Operation], 0, len(root.Content)/2)
@@ -261,30 +260,14 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 			p.Nodes.Store(ln.Line, ln)
 		}
 	}
-	prevExt := false
-	for i, pathNode := range root.Content {
-		if len(pathNode.Value) >= 2 && (pathNode.Value[0] == 'x' || pathNode.Value[0] == 'X') && pathNode.Value[1] == '-' {
-			skip = true
-			prevExt = true
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		// only keys tell what an entry is: a value may well begin with 'x-' or be the word 'parameters'.
+		currentNode = root.Content[i]
+		pathNode := root.Content[i+1]
+		if k := currentNode.Value; len(k) >= 2 && (k[0] == 'x' || k[0] == 'X') && k[1] == '-' {
 			continue
 		}
-		// https://github.com/pb33f/libopenapi/issues/388
-		// in the case where a user has an extension with the value 'parameters', make sure we handle
-		// it correctly, by not skipping.
-		if strings.EqualFold(pathNode.Value, "parameters") {
-			if !prevExt { // this
-				skip = true
-				continue
-			} else {
-				prevExt = false
-			}
-		}
-		if skip {
-			skip = false
-			continue
-		}
-		if i%2 == 0 {
-			currentNode = pathNode
+		if strings.EqualFold(currentNode.Value, "parameters") {
 			continue
 		}
 
@@ -439,6 +422,9 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 		}
 
 		err = datamodel.TranslateSliceParallel[low.NodeReference[*Operation], any](extrOps, translateFunc, nil)
+		if err != nil {
+			return err
+		}
 
 		p.AdditionalOperations = low.NodeReference[*orderedmap.Map[low.KeyReference[string], low.NodeReference[*Operation]]]{
 			Value: additionalOps,
-- 
2.43.0


From f7417ab8b35b35de700e7d332ef17c17bc0cab58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 28/35] fix: additional operations reach the high-level model;
 Swagger scopes whose names contain x- are scopes

---
 datamodel/low/v2/scopes.go    | 2 +-
 datamodel/low/v3/path_item.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/datamodel/low/v2/scopes.go b/datamodel/low/v2/scopes.go
index 0b22dde..4ef8824 100644
--- a/datamodel/low/v2/scopes.go
+++ b/datamodel/low/v2/scopes.go
@@ -44,7 +44,7 @@ func (s *Scopes) Build(_ context.Context, _, root *yaml.Node, _ *index.SpecIndex
 	if utils.IsNodeMap(root) {
 		for k := range root.Content {
 			if k%2 == 0 {
-				if strings.Contains(root.Content[k].Value, "x-") {
+				if strings.HasPrefix(root.Content[k].Value, "x-") {
 					continue
 				}
 				valueMap.Set(
diff --git a/datamodel/low/v3/path_item.go b/datamodel/low/v3/path_item.go
index f464377..84261ad 100644
--- a/datamodel/low/v3/path_item.go
+++ b/datamodel/low/v3/path_item.go
@@ -221,6 +221,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	var currentNode *yaml.Node
 
 	ops := make([]low.NodeReference[*Operation], 0, len(root.Content)/2)
+	var additionalOpsKey, additionalOpsValue *yaml.Node
 	var additionalOps *orderedmap.Map[low.KeyReference[string], low.NodeReference[*Operation]]
 
 	// extract parameters
@@ -343,7 +344,7 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 
 			// now we need to determine if these are inline additional operations, or just plonked into the root.
 			if currentNode.Value == AdditionalOperationsLabel {
-
+				additionalOpsKey, additionalOpsValue = currentNode, pathNode
 				for j := 0; j < len(pathNode.Content); j += 2 {
 					opKeyNode := pathNode.Content[j]
 					opValueNode := pathNode.Content[j+1]
@@ -427,7 +428,9 @@ func (p *PathItem) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 		}
 
 		p.AdditionalOperations = low.NodeReference[*orderedmap.Map[low.KeyReference[string], low.NodeReference[*Operation]]]{
-			Value: additionalOps,
+			Value:     additionalOps,
+			KeyNode:   additionalOpsKey,
+			ValueNode: additionalOpsValue,
 		}
 	}
 	return nil
-- 
2.43.0


From 09006e1f620dcbc500690bde17740f0a11e52f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 29/35] fix: map entries whose names begin with x- are read

---
 datamodel/low/v2/response.go        | 2 +-
 datamodel/low/v3/create_document.go | 2 +-
 datamodel/low/v3/encoding.go        | 2 +-
 datamodel/low/v3/header.go          | 4 ++--
 datamodel/low/v3/media_type.go      | 6 +++---
 datamodel/low/v3/operation.go       | 2 +-
 datamodel/low/v3/parameter.go       | 4 ++--
 datamodel/low/v3/request_body.go    | 2 +-
 datamodel/low/v3/response.go        | 4 ++--
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/datamodel/low/v2/response.go b/datamodel/low/v2/response.go
index cde602f..0904b64 100644
--- a/datamodel/low/v2/response.go
+++ b/datamodel/low/v2/response.go
@@ -63,7 +63,7 @@ func (r *Response) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 	r.Examples = examples
 
 	// extract headers
-	headers, lN, kN, err := low.ExtractMap[*Header](ctx, HeadersLabel, root, idx)
+	headers, lN, kN, err := low.ExtractMapExtensions[*Header](ctx, HeadersLabel, root, idx, true)
 	if err != nil {
 		return err
 	}
diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index aeb26ff..64e3a09 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -489,7 +489,7 @@ func extractWebhooks(ctx context.Context, root *yaml.Node, nodes documentTopLeve
 	if nodes.webhooks.value == nil {
 		return nil
 	}
-	hooks, hooksL, hooksN, err := low.ExtractMap[*PathItem](ctx, WebhooksLabel, root, idx)
+	hooks, hooksL, hooksN, err := low.ExtractMapExtensions[*PathItem](ctx, WebhooksLabel, root, idx, true)
 	if err != nil {
 		return err
 	}
diff --git a/datamodel/low/v3/encoding.go b/datamodel/low/v3/encoding.go
index 8f1d1dd..df247cd 100644
--- a/datamodel/low/v3/encoding.go
+++ b/datamodel/low/v3/encoding.go
@@ -100,7 +100,7 @@ func (en *Encoding) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	en.index = idx
 	en.context = ctx
 
-	headers, hL, hN, err := low.ExtractMap[*Header](ctx, HeadersLabel, root, idx)
+	headers, hL, hN, err := low.ExtractMapExtensions[*Header](ctx, HeadersLabel, root, idx, true)
 	if err != nil {
 		return err
 	}
diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index f50b458..1ea6448 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -167,7 +167,7 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 	}
 
 	// handle examples if set.
-	exps, expsL, expsN, eErr := low.ExtractMap[*base.Example](ctx, base.ExamplesLabel, root, idx)
+	exps, expsL, expsN, eErr := low.ExtractMapExtensions[*base.Example](ctx, base.ExamplesLabel, root, idx, true)
 	if eErr != nil {
 		return eErr
 	}
@@ -190,7 +190,7 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 	}
 
 	// handle content, if set.
-	con, cL, cN, cErr := low.ExtractMap[*MediaType](ctx, ContentLabel, root, idx)
+	con, cL, cN, cErr := low.ExtractMapExtensions[*MediaType](ctx, ContentLabel, root, idx, true)
 	if cErr != nil {
 		return cErr
 	}
diff --git a/datamodel/low/v3/media_type.go b/datamodel/low/v3/media_type.go
index 08ac97f..a86c6c5 100644
--- a/datamodel/low/v3/media_type.go
+++ b/datamodel/low/v3/media_type.go
@@ -123,7 +123,7 @@ func (mt *MediaType) Build(ctx context.Context, keyNode, root *yaml.Node, idx *i
 	}
 
 	// handle examples if set.
-	exps, expsL, expsN, eErr := low.ExtractMap[*base.Example](ctx, base.ExamplesLabel, root, idx)
+	exps, expsL, expsN, eErr := low.ExtractMapExtensions[*base.Example](ctx, base.ExamplesLabel, root, idx, true)
 	if eErr != nil {
 		return eErr
 	}
@@ -141,7 +141,7 @@ func (mt *MediaType) Build(ctx context.Context, keyNode, root *yaml.Node, idx *i
 	}
 
 	// handle encoding
-	encs, encsL, encsN, encErr := low.ExtractMap[*Encoding](ctx, EncodingLabel, root, idx)
+	encs, encsL, encsN, encErr := low.ExtractMapExtensions[*Encoding](ctx, EncodingLabel, root, idx, true)
 	if encErr != nil {
 		return encErr
 	}
@@ -171,7 +171,7 @@ func (mt *MediaType) Build(ctx context.Context, keyNode, root *yaml.Node, idx *i
 	}
 
 	// handle itemEncoding
-	itemEncs, itemEncsL, itemEncsN, itemEncErr := low.ExtractMap[*Encoding](ctx, ItemEncodingLabel, root, idx)
+	itemEncs, itemEncsL, itemEncsN, itemEncErr := low.ExtractMapExtensions[*Encoding](ctx, ItemEncodingLabel, root, idx, true)
 	if itemEncErr != nil {
 		return itemEncErr
 	}
diff --git a/datamodel/low/v3/operation.go b/datamodel/low/v3/operation.go
index 5ebc90c..568dfad 100644
--- a/datamodel/low/v3/operation.go
+++ b/datamodel/low/v3/operation.go
@@ -147,7 +147,7 @@ func (o *Operation) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	o.Responses = respBody
 
 	// extract callbacks
-	callbacks, cbL, cbN, cbErr := low.ExtractMap[*Callback](ctx, CallbacksLabel, root, idx)
+	callbacks, cbL, cbN, cbErr := low.ExtractMapExtensions[*Callback](ctx, CallbacksLabel, root, idx, true)
 	if cbErr != nil {
 		return cbErr
 	}
diff --git a/datamodel/low/v3/parameter.go b/datamodel/low/v3/parameter.go
index 2cf8ec1..06f056f 100644
--- a/datamodel/low/v3/parameter.go
+++ b/datamodel/low/v3/parameter.go
@@ -127,7 +127,7 @@ func (p *Parameter) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	}
 
 	// handle examples if set.
-	exps, expsL, expsN, eErr := low.ExtractMap[*base.Example](ctx, base.ExamplesLabel, root, idx)
+	exps, expsL, expsN, eErr := low.ExtractMapExtensions[*base.Example](ctx, base.ExamplesLabel, root, idx, true)
 	if eErr != nil {
 		return eErr
 	}
@@ -145,7 +145,7 @@ func (p *Parameter) Build(ctx context.Context, keyNode, root *yaml.Node, idx *in
 	}
 
 	// handle content, if set.
-	con, cL, cN, cErr := low.ExtractMap[*MediaType](ctx, ContentLabel, root, idx)
+	con, cL, cN, cErr := low.ExtractMapExtensions[*MediaType](ctx, ContentLabel, root, idx, true)
 	if cErr != nil {
 		return cErr
 	}
diff --git a/datamodel/low/v3/request_body.go b/datamodel/low/v3/request_body.go
index 24a074d..2b61ea9 100644
--- a/datamodel/low/v3/request_body.go
+++ b/datamodel/low/v3/request_body.go
@@ -92,7 +92,7 @@ func (rb *RequestBody) Build(ctx context.Context, keyNode, root *yaml.Node, idx
 	low.ExtractExtensionNodes(ctx, rb.Extensions, rb.Nodes)
 
 	// handle content, if set.
-	con, cL, cN, cErr := low.ExtractMap[*MediaType](ctx, ContentLabel, root, idx)
+	con, cL, cN, cErr := low.ExtractMapExtensions[*MediaType](ctx, ContentLabel, root, idx, true)
 	if cErr != nil {
 		return cErr
 	}
diff --git a/datamodel/low/v3/response.go b/datamodel/low/v3/response.go
index 15a94d4..e1667ae 100644
--- a/datamodel/low/v3/response.go
+++ b/datamodel/low/v3/response.go
@@ -123,7 +123,7 @@ func (r *Response) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 		}
 	}
 
-	con, clN, cN, cErr := low.ExtractMap[*MediaType](ctx, ContentLabel, root, idx)
+	con, clN, cN, cErr := low.ExtractMapExtensions[*MediaType](ctx, ContentLabel, root, idx, true)
 	if cErr != nil {
 		return cErr
 	}
@@ -140,7 +140,7 @@ func (r *Response) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	}
 
 	// handle links if set
-	links, linkLabel, linkValue, lErr := low.ExtractMap[*Link](ctx, LinksLabel, root, idx)
+	links, linkLabel, linkValue, lErr := low.ExtractMapExtensions[*Link](ctx, LinksLabel, root, idx, true)
 	if lErr != nil {
 		return lErr
 	}
-- 
2.43.0


From ba7bc53e654110a8775b7efa77ad41594350419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 30/35] fix: a reference to an empty object is rendered as a
 reference

---
 datamodel/high/node_builder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index 1103d71..29c9026 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -325,11 +325,6 @@ func (n *NodeBuilder) renderReference(fg low.IsReferenced) *yaml.Node {
 
 // Render will render the NodeBuilder back to a YAML node, iterating over every NodeEntry defined
 func (n *NodeBuilder) Render() *yaml.Node {
-	if len(n.Nodes) == 0 {
-		return utils.CreateEmptyMapNode()
-	}
-
-	// order nodes by line number, retain original order
 	m := utils.CreateEmptyMapNode()
 	if fg, ok := n.Low.(low.IsReferenced); ok {
 		g := reflect.ValueOf(fg)
@@ -340,6 +335,7 @@ func (n *NodeBuilder) Render() *yaml.Node {
 		}
 	}
 
+	// order nodes by line number, retain original order
 	sort.Slice(n.Nodes, func(i, j int) bool {
 		if n.Nodes[i].Line != n.Nodes[j].Line {
 			return n.Nodes[i].Line < n.Nodes[j].Line
-- 
2.43.0


From c5178f9c1e89c8b654f1b902d3067ebd14f9b774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 31/35] fix: exclusiveMinimum and exclusiveMaximum are rendered
 the way the document spells them

---
 datamodel/high/node_builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index 29c9026..7bcf712 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -607,6 +607,14 @@ func (n *NodeBuilder) AddYAMLNode(parent *yaml.Node, entry *nodes.NodeEntry) *ya
 					valueNode = &d
 				}
 			}
+			// a number is written the way the document spells it.
+			if valueNode != nil && valueNode.Kind == yaml.ScalarNode && utils.IsNodeNumberValue(valueNode) {
+				if f, err := strconv.ParseFloat(valueNode.Value, 64); err == nil {
+					if original, ok := originalFloatLexeme(f, entry.LowValue); ok {
+						valueNode.Value = original
+					}
+				}
+			}
 		} else {
 
 			encodeSkip := false
-- 
2.43.0


From 22e52f27c85ebaf64b1d1547fc8623cc59761d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 32/35] fix: format, exclusiveMinimum and uniqueItems of a
 Swagger header hold their own values

---
 datamodel/high/v2/header.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datamodel/high/v2/header.go b/datamodel/high/v2/header.go
index bb356ae..67316ad 100644
--- a/datamodel/high/v2/header.go
+++ b/datamodel/high/v2/header.go
@@ -45,7 +45,7 @@ func NewHeader(header *low.Header) *Header {
 		h.Type = header.Type.Value
 	}
 	if !header.Format.IsEmpty() {
-		h.Format = header.Type.Value
+		h.Format = header.Format.Value
 	}
 	if !header.Description.IsEmpty() {
 		h.Description = header.Description.Value
@@ -68,7 +68,7 @@ func NewHeader(header *low.Header) *Header {
 	if !header.Minimum.IsEmpty() {
 		h.Minimum = header.Minimum.Value
 	}
-	if !header.ExclusiveMinimum.Value {
+	if !header.ExclusiveMinimum.IsEmpty() {
 		h.ExclusiveMinimum = header.ExclusiveMinimum.Value
 	}
 	if !header.MaxLength.IsEmpty() {
@@ -87,7 +87,7 @@ func NewHeader(header *low.Header) *Header {
 		h.MaxItems = header.MaxItems.Value
 	}
 	if !header.UniqueItems.IsEmpty() {
-		h.UniqueItems = header.UniqueItems.IsEmpty()
+		h.UniqueItems = header.UniqueItems.Value
 	}
 	if !header.Enum.IsEmpty() {
 		var enums []any
-- 
2.43.0


From c72b56dea8c70268dcbfe752aea90c8e1a25373a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:33 +0000
Subject: [PATCH 33/35] fix: values in paths and Swagger path items that begin
 with x- or contain $ref no longer hide the entry that follows

---
 datamodel/low/v2/path_item.go | 28 ++++++----------------------
 datamodel/low/v2/paths.go     | 16 +++-------------
 datamodel/low/v3/paths.go     | 16 +++-------------
 3 files changed, 12 insertions(+), 48 deletions(-)

diff --git a/datamodel/low/v2/path_item.go b/datamodel/low/v2/path_item.go
index 57e29ac..3d4b0d8 100644
--- a/datamodel/low/v2/path_item.go
+++ b/datamodel/low/v2/path_item.go
@@ -54,9 +54,6 @@ func (p *PathItem) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 	root = utils.NodeAlias(root)
 	utils.CheckForMergeNodes(root)
 	p.Extensions = low.ExtractExtensions(root)
-	skip := false
-	var currentNode *yaml.Node
-
 	var ops []low.NodeReference[*Operation]
 
 	// extract parameters
@@ -72,30 +69,17 @@ func (p *PathItem) Build(ctx context.Context, _, root *yaml.Node, idx *index.Spe
 		}
 	}
 
-	for i, pathNode := range root.Content {
-		if len(pathNode.Value) >= 2 && (pathNode.Value[0] == 'x' || pathNode.Value[0] == 'X') && pathNode.Value[1] == '-' {
-			skip = true
-			continue
-		}
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		currentNode, pathNode := root.Content[i], root.Content[i+1]
 		// because (for some reason) the spec for swagger docs allows for a '$ref' property for path items.
 		// this is kinda nuts, because '$ref' is a reserved keyword for JSON references, which is ALSO used
 		// in swagger. Why this choice was made, I do not know.
-		if strings.Contains(strings.ToLower(pathNode.Value), "$ref") {
-			rn := root.Content[i+1]
+		if strings.Contains(strings.ToLower(currentNode.Value), "$ref") {
 			p.Ref = low.NodeReference[string]{
-				Value:     rn.Value,
-				ValueNode: rn,
-				KeyNode:   pathNode,
+				Value:     pathNode.Value,
+				ValueNode: pathNode,
+				KeyNode:   currentNode,
 			}
-			skip = true
-			continue
-		}
-		if skip {
-			skip = false
-			continue
-		}
-		if i%2 == 0 {
-			currentNode = pathNode
 			continue
 		}
 
diff --git a/datamodel/low/v2/paths.go b/datamodel/low/v2/paths.go
index 89d43b3..7278759 100644
--- a/datamodel/low/v2/paths.go
+++ b/datamodel/low/v2/paths.go
@@ -83,19 +83,9 @@ func (p *Paths) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 			close(in)
 			wg.Done()
 		}()
-		skip := false
-		var currentNode *yaml.Node
-		for i, pathNode := range root.Content {
-			if len(pathNode.Value) >= 2 && (pathNode.Value[0] == 'x' || pathNode.Value[0] == 'X') && pathNode.Value[1] == '-' {
-				skip = true
-				continue
-			}
-			if skip {
-				skip = false
-				continue
-			}
-			if i%2 == 0 {
-				currentNode = pathNode
+		for i := 0; i+1 < len(root.Content); i += 2 {
+			currentNode, pathNode := root.Content[i], root.Content[i+1]
+			if len(currentNode.Value) >= 2 && (currentNode.Value[0] == 'x' || currentNode.Value[0] == 'X') && currentNode.Value[1] == '-' {
 				continue
 			}
 
diff --git a/datamodel/low/v3/paths.go b/datamodel/low/v3/paths.go
index d8828dd..eb6a4d2 100644
--- a/datamodel/low/v3/paths.go
+++ b/datamodel/low/v3/paths.go
@@ -155,19 +155,9 @@ func extractPathItemsMap(ctx context.Context, root *yaml.Node, idx *index.SpecIn
 	}
 
 	inputs := make([]buildInput, 0, len(root.Content)/2)
-	skip := false
-	var currentNode *yaml.Node
-	for i, pathNode := range root.Content {
-		if len(pathNode.Value) >= 2 && (pathNode.Value[0] == 'x' || pathNode.Value[0] == 'X') && pathNode.Value[1] == '-' {
-			skip = true
-			continue
-		}
-		if skip {
-			skip = false
-			continue
-		}
-		if i%2 == 0 {
-			currentNode = pathNode
+	for i := 0; i+1 < len(root.Content); i += 2 {
+		currentNode, pathNode := root.Content[i], root.Content[i+1]
+		if len(currentNode.Value) >= 2 && (currentNode.Value[0] == 'x' || currentNode.Value[0] == 'X') && currentNode.Value[1] == '-' {
 			continue
 		}
 		inputs = append(inputs, buildInput{
-- 
2.43.0


From c374955296af4129b183dafaf7d63f0482b2c2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:20 +0000
Subject: [PATCH 34/35] fix: an extension whose value begins with x- does not
 hide the response that follows

---
 datamodel/low/extraction_functions.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 79d5e0a..37e2318 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -759,24 +759,13 @@ func ExtractMapNoLookupExtensions[PT Buildable[N], N any](
 	root = utils.NodeAlias(root)
 	utils.CheckForMergeNodes(root)
 	if utils.IsNodeMap(root) {
-		var currentKey *yaml.Node
-		skip := false
-		for i := 0; i < len(root.Content); i++ {
-			node := root.Content[i]
+		for i := 0; i+1 < len(root.Content); i += 2 {
+			currentKey, node := root.Content[i], root.Content[i+1]
 			if !includeExtensions {
-				if len(node.Value) >= 2 && (node.Value[0] == 'x' || node.Value[0] == 'X') && node.Value[1] == '-' {
-					skip = true
+				if k := currentKey.Value; len(k) >= 2 && (k[0] == 'x' || k[0] == 'X') && k[1] == '-' {
 					continue
 				}
 			}
-			if skip {
-				skip = false
-				continue
-			}
-			if i%2 == 0 {
-				currentKey = node
-				continue
-			}
 
 			node = utils.NodeAlias(node)
 
-- 
2.43.0


From 7f8c3b822f0f8582a46fcd5a556aa5d7e0e03f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 35/35] fix: changed defaults of Swagger headers and items are
 reported

---
 what-changed/model/header.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/what-changed/model/header.go b/what-changed/model/header.go
index 99ec5e6..63be094 100644
--- a/what-changed/model/header.go
+++ b/what-changed/model/header.go
@@ -148,6 +148,10 @@ func addSwaggerHeaderProperties(left, right low.SwaggerHeader, changes *[]*Chang
 	addPropertyCheck(&props, left.GetCollectionFormat().ValueNode, right.GetCollectionFormat().ValueNode,
 		left.GetCollectionFormat(), right.GetCollectionFormat(), changes, v3.CollectionFormatLabel, true, CompHeader, PropCollectionFormat)
 
+	// default
+	addPropertyCheck(&props, left.GetDefault().ValueNode, right.GetDefault().ValueNode,
+		left.GetDefault(), right.GetDefault(), changes, v3.DefaultLabel, true, CompHeader, PropDefault)
+
 	// maximum
 	addPropertyCheck(&props, left.GetMaximum().ValueNode, right.GetMaximum().ValueNode,
 		left.GetMaximum(), right.GetMaximum(), changes, v3.MaximumLabel, true, CompHeader, PropMaximum)
-- 
2.43.0

